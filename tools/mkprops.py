#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
E='rs/main/src/lib.rs'; U='rs/main/src/util.rs'; S='rs/synth/src/'; N=S+'node/'; P='rs/parser/src/'
def p(id,title,statement,over,qt,why,files,mech,**k):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    a.update(k)
    return dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':qt},why_tests_cant=why,anchors=a)
R=[
p('P01','Sound follows the code after any sequence of edits',
 'After any sequence of live edits, the engine produces exactly the audio that the chains written in the most recently accepted code describe: every node of that code, in the written order, with the written parameters, and nothing that was removed. How the code got there (insertions, deletions, swaps, duplicates, renames, earlier rejected edits) is never audible beyond the running state that unchanged nodes keep.',
 ['histories','programs'],'all finite sequences of accepted and rejected code updates interleaved with audio blocks, over all programs of the language',
 'The tests run a handful of fixed pairs of programs and compare syntax trees, never the audio after an arbitrary edit history.',
 [E,U,P+'nodes.rs'],[('update_with_code (diff and apply)',E),('makenode',U)],
 observe_at=['return value of a code update','audio blocks of both channels']),
p('P02','A rejected edit changes nothing',
 'When a code update is rejected for any reason (syntax error, unknown reference, unknown sample), the audio that follows, including the running state of every node, and the result of every later operation are identical to what they would have been had the update never been submitted.',
 ['histories','programs'],'every history with a rejected update at every position, over all ways an update can be rejected',
 'No test compares the audio or later edits after an error with the run without the error; the source itself carries a todo that errors still update some nodes.',
 [E],[('clean_up / index_info_backup rollback',E),('handle_ref_check',E)],observe_at=['audio blocks','later update results']),
p('P03','Unchanged nodes keep running, changed nodes restart',
 'When code is edited, a node whose text stays the same within its chain continues without interruption (phase, clock, envelope position, delay memory, values set by control messages), and every new or changed node starts from its initial state. Submitting the same code again is inaudible.',
 ['histories','programs'],'all edit sequences, all positions of the kept node within its chain, all node kinds with state',
 'Continuity is a relation between two runs of unbounded length; the tests check at most that an update succeeds.',
 [E],[('old/new component matching',E)],observe_at=['audio blocks around an edit']),
p('P04','Code is accepted exactly when every name in it resolves',
 'A code update succeeds if and only if the text is well formed, every reference names a chain of the new code (or the built-in audio input), a wildcard reference matches at least one chain, and every sample it names has been loaded; the built-in audio input cannot be redefined. A rejection caused by a missing name reports one of the names that are actually missing.',
 ['programs','histories'],'all programs in all engine states (chains of the previous code must not satisfy references of the new one)',
 'Tests cover single fixed error strings; resolution depends on which chains existed before and on the order of edits.',
 [E,U,P+'lib.rs'],[('handle_ref_check',E),('sample lookup in makenode',U)],observe_at=['return value of a code update']),
p('P05','Only unprefixed chains are heard, summed into both channels',
 'The output is the sum of the chains whose names have no tilde; chains whose name starts with a tilde are heard only through references to them. Mono chains appear equally in both channels, stereo chains keep their channels, and an empty program is silent.',
 ['programs','histories'],'all programs with any number of audible and hidden chains, and every later edit that renames between the two',
 'Tests check one-chain programs; routing must hold for any set of chains and any mixture of mono and stereo nodes.',
 [E,N+'sum.rs'],[('connection to the destination',E),('Sum2 mixing',N+'sum.rs')],observe_at=['audio blocks of both channels']),
p('P06','References deliver the named chain in the same block, computed once',
 'A reference delivers the output of the end of the named chain for the very same block, whatever the textual order of the chains and however many places refer to it (each chain is computed once per block). Only references that close a feedback loop read the previous block. A mix of references or of a name pattern is the sum of all matching chains.',
 ['programs','histories'],'all reference graphs (DAGs and loops), all textual orders, all edits that rewire them',
 'Evaluation order comes from a graph traversal over hash-ordered structures; a few fixed examples cannot settle it.',
 [E,S+'graph.rs',N+'pass.rs',N+'sum.rs'],[('DfsPostOrder evaluation',S+'graph.rs'),('reference connection',E)],observe_at=['audio blocks']),
p('P07','A control message changes exactly the addressed parameter',
 'A control message changes the addressed parameter of the addressed node of the addressed chain from the next block on, immediately for the rest of that node\'s life, and nothing else. Several messages in one string apply in order; messages that are malformed or address a chain, node or parameter that does not exist have no effect and never stop the engine.',
 ['histories','inputs'],'all message strings in all engine states, including after edits that move the addressed node',
 'The effect is on later audio of one node among many and depends on the edit history that placed the node.',
 [E],[('send_msg parsing and addressing',E),('per-node message handlers',N)],observe_at=['audio blocks after a message']),
p('P08','Reset gives a fresh engine',
 'After a reset the engine behaves like a newly created one with the same sample rate: silence, no chains, no samples, default tempo and seed, working audio input, and identical audio for any later history.',
 ['histories'],'every history before the reset and every history after it',
 'The tests never reset an engine; equivalence with a fresh engine quantifies over all later histories.',
 [E,S+'context.rs'],[('Engine::reset',E),('AudioContext::reset',S+'context.rs')],observe_at=['results and audio after reset']),
p('P09','Audio does not depend on the block size',
 'For programs without feedback, the stream of samples rendered is the same whatever block size (two or more samples) the engine is instantiated with, also when edits, messages and tempo changes happen in between at the same sample positions.',
 ['configurations','programs','histories'],'all block sizes and all feedback-free histories (nodes specified per block excepted: random choice, and filter cutoffs set by a signal)',
 'Tests use one block size each and never compare two.',
 [S+'graph.rs',N],[('const generic block size in every node',N)],observe_at=['audio blocks of engines with different block sizes']),
p('P10','Pattern timing is sample accurate',
 'A sequence divides its cycle (four beats at the current tempo divided by the current speed) into equal steps, each step into equal sub-steps, and emits each note as a pitch ratio on exactly one sample at its place, cycle after cycle, silence elsewhere; referenced notes read the referenced signal at that sample. Arrangements play each section for its number of cycles in order and start over. Tempo and speed changes take effect from the next block.',
 ['programs','inputs','histories'],'all patterns, tempos, speeds, sample rates and sequences of changes of them',
 'Timing is a statement about every sample of an unbounded run for every pattern; tests look at a few blocks of fixed patterns.',
 [N+'sequencer/seq.rs',N+'sequencer/arrange.rs',N+'sequencer/speed.rs',P+'nodes.rs'],[('Sequencer::process',N+'sequencer/seq.rs'),('Seq::parse_from_iter',P+'nodes.rs'),('Arrange::process',N+'sequencer/arrange.rs')],observe_at=['audio blocks']),
p('P11','Delay lines delay every channel by the stated time',
 'A delay by n samples or t milliseconds outputs, on both channels, the input of exactly that long ago and silence before; a zero sample delay passes the input through; a modulated delay interpolates linearly between the neighbouring past samples. An all-pass filter with a delay satisfies its difference equation with that delay. No sample is lost or repeated across blocks.',
 ['inputs','configurations','programs'],'all delay lengths relative to the block size, all input signals, mono and stereo',
 'Needs every alignment of delay length with block boundaries.',
 [N+'delay/delayn.rs',N+'delay/delayms.rs',N+'filter/apfmsgain.rs'],[('DelayN',N+'delay/delayn.rs'),('DelayMs',N+'delay/delayms.rs'),('AllPassFilterGain',N+'filter/apfmsgain.rs')],observe_at=['audio blocks']),
p('P12','Envelopes follow their stages for every trigger pattern',
 'A percussive envelope rises linearly over its attack and falls linearly over its decay, scaled by the trigger value and restarted by every trigger; an ADSR envelope rises from its current level to one, decays to the sustain level, holds while the gate is open and falls linearly to zero from its current level over the release. Both are identical on both channels, and times are in seconds of the sample rate in use.',
 ['inputs','histories','configurations'],'all trigger and gate patterns, including retriggers in every stage, all stage lengths including zero',
 'Retriggers can hit any stage at any offset; tests cover none.',
 [N+'envelope/envperc.rs',N+'envelope/adsr.rs'],[('EnvPerc::process',N+'envelope/envperc.rs'),('Adsr::process',N+'envelope/adsr.rs')],observe_at=['audio blocks']),
p('P13','Oscillators and signal sources follow their defining equations',
 'Sine, saw, square and triangle produce their waveform of a phase that advances by frequency divided by sample rate and wraps once per period, with the frequency taken per sample from a connected signal or reference; constants are constant, impulse trains fire once per period, break-point signals interpolate linearly between their points, noise is reproducible from its seed, and arithmetic nodes apply their operation sample by sample and channel by channel.',
 ['inputs','programs','configurations'],'all frequencies, modulations, sample rates and run lengths',
 'A statement about every sample of unbounded runs; tests check the first few samples of one setting.',
 [N+'oscillator/',N+'signal/',N+'operator/'],[('process_oscillation',N+'oscillator/mod.rs'),('Points::process',N+'signal/points.rs'),('apply_op',N+'operator/mod.rs')],observe_at=['audio blocks']),
p('P14','Sample playback',
 'A positive trigger starts playing the named sample at a speed proportional to the trigger value and corrected for the sample\'s own rate, starting with its first frame on the trigger sample, ending at its last frame, interpolating linearly in between, with overlapping triggers summed and stereo samples kept in their channels. Pattern players trigger at their written cycle positions.',
 ['inputs','histories','configurations'],'all trigger patterns, sample lengths, channel counts and rate ratios',
 'Tests never compare the audio of sample playback.',
 [N+'sampling/sampler.rs',N+'sampling/psampler.rs'],[('Sampler::process',N+'sampling/sampler.rs'),('PSampler::process',N+'sampling/psampler.rs')],observe_at=['audio blocks']),
p('P15','The engine never stops: every input is answered without a crash',
 'No code text, control message, tempo change, audio input or sequence of them makes the engine panic (delay lengths fitting in memory) or leave it unable to process the next block; a text that cannot be run is answered with an error.',
 ['inputs','programs','histories'],'all texts (valid, mutated and arbitrary), all message strings, all histories',
 'Crash freedom is universally quantified; known crashes needed specific programs or edit histories.',
 [E,U,P+'lib.rs',N],[('makenode',U),('update_with_code',E),('node process functions',N)],observe_at=['absence of panics','continued operation']),
p('P16','Meaning is independent of layout and spelling',
 'The meaning of a program does not depend on spacing, separators that count as space, comments, blank lines, optional semicolons, line breaks before a chain arrow, the order of the chains, or the choice between synonymous node names and number spellings.',
 ['programs','inputs'],'all programs and all layouts of each',
 'Tests parse a few fixed strings.',
 [P+'glicol.pest',P+'lib.rs',P+'nodes.rs'],[('grammar',P+'glicol.pest'),('get_ast',P+'lib.rs')],observe_at=['return value of an update','audio']),
p('P17','The browser command queue delivers commands whole and in order',
 'Commands put into the shared-memory queue by the page are taken out by the audio thread byte for byte, in order, none lost, none duplicated, no byte seen before it was written, under every interleaving of the two threads and across wrap-around; when there is no room the writer is told how much was taken, and full and empty are reported truthfully.',
 ['schedules','inputs'],'all interleavings of one producer and one consumer at the granularity of single shared-memory accesses, all capacities and message sizes',
 'There are no tests of the queue, and interleavings cannot be sampled by unit tests.',
 ['js/npm/ringbuf.js'],[('RingBuffer.push / pop',"js/npm/ringbuf.js"),('TextParameterWriter.enqueue / Reader.dequeue','js/npm/ringbuf.js')],observe_at=['popped bytes','return values']),
p('P18','The web boundary reports every outcome faithfully',
 'For every code text handed to the browser entry point, the status block says success, syntax error, unknown sample or unknown reference exactly as the engine decided, with a message that names the place or the missing name and never exceeds or leaves the block; the audio returned is that of the engine, left channel first then right.',
 ['inputs','histories'],'all code texts and histories through the exported functions',
 'There are no tests of the browser entry points.',
 ['rs/wasm/src/lib.rs'],[('update / process / send_msg / add_sample exports','rs/wasm/src/lib.rs')],observe_at=['status block','output memory']),
p('P19','No residue: resources match the current code',
 'After any history the engine holds exactly as many processing nodes and connections as a new engine given only the current code, and repeating the same edits, messages and blocks does not make it hold more and more memory.',
 ['histories'],'all finite edit histories including rejected edits, messages and resets',
 'A leak shows only as growth over a history; tests run one or two updates.',
 [E,S+'context.rs'],[('node removal and staging',E)],observe_at=['public graph of the engine context']),
p('P20','Stereo image: panning, balance and channel propagation',
 'Panning places a signal with square-root gains of its position, balance puts one chain left and another right, and amplitude, mixing, delay and reference nodes keep the left and right of a stereo signal separate; nodes that process one channel read the left one and give the same on both, and mono signals stay identical on both channels.',
 ['programs','inputs'],'all chains mixing mono and stereo nodes, constant and modulated positions',
 'Channel handling is per node pair; tests look at the left channel.',
 [N+'effect/pan.rs',N+'effect/balance.rs',U],[('Pan / Balance',N+'effect/pan.rs'),('channel counts in makenode',U)],observe_at=['both channels of audio blocks']),
p('P21','Filters satisfy their difference equations',
 'The one-pole, low-pass and high-pass filters satisfy their difference equations for constant, modulated and patterned cutoff at the sample rate in use; in particular a low-pass settles to its constant input and a high-pass to zero, and filter memory survives block boundaries.',
 ['inputs','programs','configurations'],'all input signals and parameter changes',
 'Recursive state over unbounded input; tests only check that the code runs.',
 [N+'filter/rlpf.rs',N+'filter/rhpf.rs',N+'filter/onepole.rs'],[('ResonantLowPassFilter',N+'filter/rlpf.rs'),('ResonantHighPassFilter',N+'filter/rhpf.rs'),('OnePole',N+'filter/onepole.rs')],observe_at=['audio blocks']),
p('P22','The node graph library delivers inputs in connection order',
 'When the synthesis library is used directly, connecting, ordering, chaining and removing nodes gives each node exactly its connected inputs in the stated order, each node reachable from the destination is computed once per block after its inputs, and messages reach only the node they are sent to (or all nodes when broadcast).',
 ['programs','histories'],'all sequences of graph operations over small graphs',
 'Tests build single fixed graphs.',
 [S+'context.rs',S+'graph.rs'],[('AudioContext connect/chain/add',S+'context.rs'),('process',S+'graph.rs')],observe_at=['blocks of the destination']),
p('P23','Built-in instruments play the patches they stand for',
 'The drum and synth instruments sound, for every sequence of triggers, as the fixed patch they stand for: every positive trigger restarts their envelopes scaled by its value, the pitch of a synth follows the last trigger, and attack and decay can be changed while they play. The note-list synth starts each listed note at its place in every repetition of its span, and the message synth starts each requested note once, at the requested time; notes sound together and each ends after its attack and decay.',
 ['inputs','histories','programs'],'all trigger sequences, decay and attack times, note lists, note messages and their times',
 'The result is a function of the whole trigger history; the tests at most run an instrument without looking at what it plays.',
 [N+'compound/mod.rs',N+'compound/bd.rs',N+'compound/sn.rs',N+'compound/hh.rs',N+'compound/sawsynth.rs',N+'compound/squsynth.rs',N+'compound/trisynth.rs',N+'synth/pattern_synth.rs',N+'synth/msgsynth.rs'],
 [('inner patches',N+'compound/bd.rs'),('process_compound',N+'compound/mod.rs'),('PatternSynth::process',N+'synth/pattern_synth.rs'),('MsgSynth::process and send_msg',N+'synth/msgsynth.rs')],observe_at=['audio blocks']),
p('P24','Computed nodes evaluate their code once per sample',
 'An expression node evaluates its assignments in order and then its result once for every sample, with the current input, the running sample count and the sample rate as variables; assigned variables keep their values from sample to sample and across edits and messages, an expression that cannot be evaluated counts as zero, and code received in a message replaces the old code without touching the variables. A script node runs its script once per block on the block of input and plays the numbers it returns; a script that fails leaves the last block in place, and one that cannot be compiled is ignored.',
 ['programs','inputs','histories'],'all expressions and scripts, all inputs, all histories of edits and code messages',
 'The meaning of a user expression is recursive over unbounded input; the tests check at most that one expression is accepted.',
 [N+'dynamic/eval.rs',N+'dynamic/meta.rs',P+'nodes.rs'],[('Eval::process and apply_code',N+'dynamic/eval.rs'),('Meta::process',N+'dynamic/meta.rs')],observe_at=['audio blocks']),
p('P25','The reverb mixes dry and wet exactly and decays through its loop',
 'The plate reverb plays the left channel of its input in the dry part on both sides and, after its pre-delay, two different sums of the taps of one loop of delays and all-pass filters; dry and wet are weighted by one minus the mix and the mix, whatever changes of the mix arrive while it sounds. What was put in comes back once around the loop, attenuated, and never grows.',
 ['inputs','histories'],'all inputs, mixes and mix changes, over more than one turn of the loop',
 'The wet part is silent for thousands of samples and the loop takes tens of thousands; no test looks that far.',
 [N+'effect/plate.rs',N+'effect/balance.rs',N+'delay/delayn.rs',N+'filter/apfmsgain.rs',N+'sum.rs'],[('Plate::new patch',N+'effect/plate.rs'),('mix messages',N+'effect/plate.rs')],observe_at=['both channels of audio blocks']),
p('P26','The web pages pass everything on between the user and the audio thread',
 'Code, control messages, tempo, samples and the other settings a page is asked for reach the engine of the audio thread exactly once, unchanged and in order, as far as the shared queue has room, and every sample the page knows reaches an engine that starts or starts again. Each audio callback puts the engine\'s left block on the left speaker and its right block on the right, with the sound of the microphone as its input, and code that the engine refuses is reported to the user, syntax errors with their place.',
 ['schedules','histories','inputs'],'all sequences of requests of the user, deliveries of messages between the threads and audio callbacks, for the website and both transports of the package',
 'There are no tests of the pages, and what arrives depends on how requests, message deliveries and audio callbacks fall together.',
 ['js/src/glicol.js','js/src/glicol-engine.js','js/npm/index.js','js/npm/glicol-engine.js','js/npm/nosab.js'],[('page scripts','js/src/glicol.js'),('Engine','js/npm/index.js'),('audio worklets','js/src/glicol-engine.js')],observe_at=['calls of the engine','speaker buffers','console of the user']),
p('P27','Programs built with the chain functions mean their calls',
 'A program composed with the chain functions of the package sounds exactly as the chains of the nodes called, in order, with the given numbers, references, patterns and names; a call with an argument that cannot stand there adds nothing.',
 ['programs','inputs'],'all compositions of the chain functions with numbers as numbers or text, references, patterns and invalid arguments, and all sequences of such programs',
 'There are no tests of the functions, and their meaning shows only when the text they make is run by the engine.',
 ['js/npm/nodechain.js','js/npm/index.js',P+'glicol.pest'],[('chain functions','js/npm/nodechain.js'),('Engine.play','js/npm/index.js')],observe_at=['audio blocks']),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for r in R: f.write(json.dumps(r)+'\n')
