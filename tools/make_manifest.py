"""MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
INPUT = 'bounded-exhaustive enumeration of inputs executed on the code, compared with a reference model'
SEQ = 'stateless model checking: all operation sequences up to a bound executed on the code, compared with a reference model'
TECH = {
    'C01': INPUT, 'C02': INPUT, 'C03': SEQ,
    'C04': 'exhaustive enumeration of truncation points of encoded histories, executed on the code',
    'C05': INPUT, 'C06': INPUT, 'C07': INPUT,
    'C08': 'stateless model checking: all pairs of an alphabet, and all operation histories up to a depth over two objects and two caller buffers',
    'C09': INPUT,
    'C10': 'stateless model checking: all operand pairs and all histories of (in-place) operations up to a depth',
    'C11': INPUT, 'C12': INPUT,
    'C13': 'bounded-exhaustive enumeration of tree shapes and leaf patterns executed on the code, compared with a reference model',
    'C14': 'explicit exploration of all trim flag vectors and trim sequences on all tree shapes up to a bound, compared with a reference model',
    'C15': INPUT,
    'C16': 'exhaustive enumeration of single and double damages of texts, executed on the code',
    'C17': 'exhaustive enumeration of single and double damages of texts, executed on the code',
    'C18': 'exhaustive enumeration of keys, phrases and damages over a switchable stand-in for scrypt, and fixed cases with the real one',
    'C19': 'bounded-exhaustive enumeration of keys and of histories of key pairs, compared with a reference model',
    'C20': 'exhaustive enumeration of single damages of signed messages, compared with the ECDSA definition',
    'C21': 'stateless model checking: all process histories up to a depth, each in a fresh process',
    'C22': INPUT,
    'C23': 'exhaustive enumeration of pairs and triples of points of small curves and of an alphabet on P-256',
    'C24': 'complete enumeration of the states of small fields and curves, boundary alphabets on the 256-bit curves',
    'C25': 'complete enumeration of keys, nonces, messages and signatures on small curves executed on the code',
    'C26': 'complete enumeration of small moduli and of scripted random draws executed on the code',
    'C27': 'bounded-exhaustive enumeration of command lines and scripted randomness',
    'C28': 'stateless model checking of two callers under a controlled scheduler: all interleavings up to a preemption bound',
    'C29': 'bounded-exhaustive enumeration of numbers, and of single-bit changes of a scripted system random source, executed on the code',
    'C30': 'stateless model checking: all single operations and ordered pairs of operations on shared argument objects, with arguments and results overwritten in between',
    'C31': 'stateless model checking of long histories: one operation over crowds of distinct values with re-asks at every listed distance',
    'C32': 'explicit-state exploration of the graph of forms and conversions to closure, and all walks up to a depth, executed on the code',
    'C33': 'exhaustive fault injection: the stream fails at every byte of every field operation',
    'C34': 'bounded-exhaustive enumeration of signing histories with recovery of every nonce',
    'C35': 'bounded-exhaustive enumeration of hostile counts, lengths and texts with a step, memory and read monitor on every execution',
    'C36': 'exhaustive exploration of process configurations, singly and in pairs, and of import orders, each a fresh process',
    'C37': 'stateless model checking of users of one stream: all schedules, pieces and cuts of field sequences on every kind of stream, executed on the code',
    'C38': 'bounded-exhaustive enumeration of copy histories (ways of copying, uses and changes before and after) executed on the code, in one and in two processes',
    'C39': 'bounded-exhaustive enumeration of refusal histories: every refused operation, alone and in pairs, followed by all others',
    'C40': 'exhaustive enumeration of the points where an operation can be broken off (every line and return executed), each followed by a history',
    'C41': 'exhaustive enumeration of operations, unsuitable inputs and failure points under a monitor of everything put out',
    'C42': 'exhaustive enumeration of operations, commands, imports and failure points with comparison of the state of the process',
    'C43': 'exhaustive enumeration of nested executions: every operation inside every other at every point',
    'C44': 'bounded-exhaustive enumeration of kinds of arguments, alone, in combination and in succession',
    'C45': 'bounded-exhaustive enumeration of sizes around every power of two and ten against an independent model',
}
NOTE = 'Holds on every execution enumerated within the bounds stated in the evidence file (families, cases, transitions, states); ' \
       'the executions are those of the code itself, so there is no model to bind. Trusts CPython, hashlib/pycryptodome and the reference model in mc/. Assumes: '


def main():
    import sys
    sys.path.insert(0, os.path.join(HERE, '..'))
    import importlib
    os.chdir(os.path.join(HERE, '..'))
    checks = []
    for pid in sorted(TECH):
        m = importlib.import_module('mc.checks.' + pid.lower())
        a = list(getattr(m, 'ASSUMPTIONS', [])) or ['nothing else']
        checks.append({'property': pid, 'quick_cmd': './run_check.sh %s quick' % pid, 'thorough_cmd': './run_check.sh %s thorough' % pid,
                       'technique': TECH[pid], 'level': 'model_checking', 'level_note': NOTE + '; '.join(a) + '.'})
    out = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import base58, Crypto, scrypt, ecdsa, bitcoin"', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: the code is executed as it is. Checks print KNOWN-FINDING lines for the entries of known_findings.json.'}
    with open('MANIFEST.json', 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
