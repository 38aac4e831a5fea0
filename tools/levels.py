"""Technique and level notes of the checks whose method is not the common one."""
TECH = {
 'P09': 'trace validation of the same recorded history on several block sizes against one TLA+ stream model (TLC)',
 'P15': 'trace validation of recorded histories of arbitrary texts, messages and settings against the TLA+ '
        'specification, which has no crash transition (TLC); further histories are run and only those with a crash or '
        'hang in the recording are given to TLC',
 'P17': 'TLC refinement check of an implementation-shaped queue model against an abstract TLA+ queue, and trace '
        'validation of the real queue code stepped through controlled schedules, one shared access at a time',
 'P18': 'trace validation of histories recorded through the browser entry points against the TLA+ specification (TLC)',
 'P26': 'trace validation of histories of the real page scripts and audio worklets, recorded under controlled delivery '
        'of messages and audio callbacks, against a TLA+ specification of the two threads (TLC)',
 'P27': 'trace validation of engine histories of programs written by the real chain functions against the TLA+ '
        'specification (TLC)',
 'P22': 'trace validation of recorded histories of graph operations against the TLA+ specification of the graph library (TLC)',
}
NOTES = {
 'P09': 'Each history runs on engines of several block sizes; every stream is compared sample by sample with one '
        'model stream. Exhaustive for the recorded histories, sampling over programs and histories. Trusts TLC, the '
        'harness and the fixed-point arithmetic of the model.',
 'P15': 'Every operation of every history has to be answered, and later blocks have to follow the model wherever the '
        'program is one the model knows. Sampling over texts and histories. Trusts TLC, the harness and the '
        'fixed-point arithmetic of the model.',
 'P17': 'The abstract queue and the queue algorithm are checked exhaustively for small capacities and message sizes; '
        'the real code is run under all schedules of short scenarios and random schedules of longer ones, with the '
        'shared accesses as steps. Sequentially consistent interleavings. Trusts TLC and the stepping harness.',
 'P18': 'The exported functions are called natively; every status block and every block of audio of every history is '
        'compared with the model. Sampling over programs and histories. Trusts TLC, the harness and the fixed-point '
        'arithmetic of the model.',
 'P26': 'The scripts run under node with stand-ins for the browser and for the engine; every call of the engine, every '
        'speaker block and every report to the user is compared with the model. Exhaustive for the recorded histories, '
        'sampling over requests and schedules. Trusts TLC, node and the stand-ins.',
 'P22': 'Every message a node receives, the order of computation, what each node sees and every block are compared '
        'with the model (integers, no tolerance). Exhaustive for the recorded histories, sampling over graphs. '
        'Trusts TLC and the harness.',
}

WALK = ('; replay into the engine of a walk over all ordered pairs of the programs of a small TLA+ universe, each edit '
        'followed by sound that is compared with the specification')
TRACE = 'trace validation of recorded engine histories against the TLA+ specification (TLC)'
for p in ('P01', 'P02', 'P03', 'P19'):
    TECH[p] = TRACE + WALK
TECH['P19'] += '; bytes held by the engine over 600 repetitions of a turn of edits, messages and blocks'
TECH['P04'] = ('TLC refinement check of an implementation-shaped model of the update algorithm against abstract editing, ' +
               TRACE + WALK)
for p in ('P10', 'P11', 'P12', 'P13', 'P14'):
    TECH[p] = TRACE + ', some of them after up to 2^24 unobserved samples of a periodic program'
SAMPLED = ('Every recorded answer and every sample of both channels of every history of the real engine is compared '
           'with the TLA+ model within a fixed tolerance; sampling over programs and histories')
for p in ('P01', 'P02', 'P03', 'P19'):
    NOTES[p] = (SAMPLED + ', exhaustive for pairs of consecutive programs of the small universe. Trusts TLC, the harness '
                'and the fixed-point arithmetic of the model.')
NOTES['P04'] = (SAMPLED + ', exhaustive for pairs of consecutive programs of the small universe; the update algorithm is '
                'model-checked exhaustively for that universe. Trusts TLC, the harness and the fixed-point arithmetic.')
