"""Writes MANIFEST.json from the table below. A property without a check goes under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = dict(
  C01=('exploration', 'stateless exploration of collection schedules on the real interpreter: every single collection point of each program (by forking there), every pair in thorough, periodic schedules, heap-size sweep; heap graph compared across each collection, output against the run without collections and a reference (Guile)',
       'all single points of the programs within the bound; programs cover every kind of datum in every kind of place that can hold it; programs outside the list are not covered'),
  C05=('exploration', 'exhaustive enumeration of argument tuples over boundary domains run on the real interpreter against a reference (Guile)',
       'exhaustive within the stated argument domains; values outside the domains are not covered'),
  C06=('exploration', 'exhaustive enumeration of list operations over all small lists run on the real interpreter against a reference (Guile)',
       'exhaustive over lists up to the stated length over the stated alphabet'),
  C02=('exploration', 'exhaustive enumeration of expressions of a grammar up to a depth, run on the real interpreter against a reference (Guile)',
       'all forms of the grammar nested two deep, each evaluated three times; all top-level sequences up to a length'),
  C03=('exploration', 'exhaustive enumeration of nestings of call/cc, catch, throw and values, run on the real interpreter against a reference (Guile)',
       'all nestings up to the stated depth; handler state across continuations that leave a catch is a listed finding'),
  C04=('exploration', 'exhaustive enumeration of token sequences and of data up to a depth, read and written by the real interpreter, against a reference (Guile) and against read-of-write identity',
       'all texts of the token alphabet up to the stated length; all data of the grammar up to the stated depth; end of input at every position'),
  C08=('exploration', 'exhaustive enumeration of string, character and symbol operations over all small strings and all byte values, against a reference (Guile)',
       'exhaustive over strings up to the stated length over a small alphabet, and over all bytes in fixed positions'),
  C07=('exploration', 'exhaustive enumeration of operation sequences up to a depth over small worlds of aliased pairs, vectors, hash tables, association lists, records and variables, run on the real interpreter against a reference (Guile)',
       'all sequences up to the stated depth over the operations of each world, the whole world observed after every operation'),
  C09=('exploration', 'exhaustive enumeration of every pattern of a grammar against every datum, and of every call shape of procedures with optional, keyword and rest arguments, run on the real interpreter against a reference (Guile)',
       'all patterns up to the stated depth against all data up to the stated depth; all argument lists up to the stated length'),
  C10=('exploration', 'exhaustive enumeration of port operation sequences up to a depth, over string and file ports, redirections and whole programs, run on the real interpreter against a reference (Guile) and a model of byte streams',
       'all sequences up to the stated depth (3 to 5) over the operations; all nestings of redirections up to two (thorough: three) deep'),
  C11=('exploration', 'exhaustive enumeration of command lines, exit statuses, short programs, and sequences of environment, file, descriptor and process operations, each a process of its own, against a model of the process',
       'all options up to two (thorough: three) deep with every way to name the program; all exit statuses; all operation sequences up to the stated depth'),
  C12=('exploration', 'exhaustive enumeration of faulty calls in every evaluation position up to two contexts deep with every way of catching, run on the real interpreter against a reference (Guile), and uncaught as whole programs',
       'every fault of the stated kinds in every stated position; argument types of primitives other than pairs and numbers are not covered'),
  C20=('exploration', 'exhaustive enumeration of argument values over boundary domains run on the compiled library in one process with a reference C library',
       'all tuples of the stated domains; library data is set back before every call'),
  C21=('exploration', 'exhaustive enumeration of all short texts over an alphabet and all small operands, run on the compiled library against a reference C library',
       'all texts up to the stated length over the alphabet'),
  C22=('exploration', 'exhaustive enumeration of conversion specifications and values, run on the compiled v*printf functions against a reference C library',
       'all specifications of flags - 0 and space, widths and precisions up to the stated bound; through every entry point'),
  C23=('exploration', 'exhaustive enumeration of format and input texts, run on the compiled v*scanf functions against a reference C library',
       'all formats and texts of the grammar up to the stated length'),
  C24=('fault_enumeration', 'explicit-state enumeration of all operation sequences up to a depth, and of every fault at every system call, on the compiled stdio and descriptor functions over a model kernel, against a model of the stream',
       'all sequences up to the stated depth over the operations; every single short or failing system call within them'),
  C25=('fault_enumeration', 'explicit-state enumeration of all allocator operation sequences up to a depth, with every refusal point of brk, on the compiled allocator, with invariants checked after every operation',
       'all sequences up to the stated depth over the stated sizes; every single refusal'),
  C26=('exploration', 'exhaustive enumeration of inputs of qsort, getopt, environment and search functions, run on the compiled library against a reference C library or a model',
       'all arrays, argument vectors and operation sequences up to the stated sizes'),
  C27=('fault_enumeration', 'exhaustive enumeration of every answer of a recording kernel to every system call wrapper, and of operation sequences on a small file tree run next to a reference C library',
       'all error numbers and boundary arguments for every wrapper; all sequences of up to two file operations over the names of the tree'),
  C30=('exploration', 'exhaustive enumeration of expressions over operators, operand types, places and boundary values, compiled by the real MesCC for x86_64 and run next to the same program compiled by gcc',
       'all combinations of the stated operators, types and places up to two operators deep, on every tuple of boundary values where C defines the result'),
  C31=('exploration', 'exhaustive enumeration of nestings of statements (conditions, loops, switches, jumps) and of calls, compiled by the real MesCC for x86_64 and x86 and run next to the same program compiled by gcc',
       'all nestings of the statement grammar up to the stated depth, each run on all inputs of a small domain with a trace of its path; all argument counts and orders up to the bound'),
  C32=('exploration', 'exhaustive enumeration of declarations (types, arrays, structures, unions, initializers) with every access to them, compiled by the real MesCC for x86_64 and x86 and run next to the same program compiled by gcc',
       'all declarations of the grammar up to the stated depth; bit-fields and floating point are not covered'),
  C33=('exploration', 'every program of a corpus compiled by MesCC on Guile and on Mes, by every route of the driver, in every order of inputs and at several heap sizes: one output',
       'the C programs of the tree without floating point and programs of the grammars of C30 to C32; outputs compared byte for byte'),
  C34=('fault_enumeration', 'exhaustive enumeration of command lines (stage, output, kinds and order of inputs, machine, directories, definitions, libraries) and of every failure of every tool the driver runs, on the real driver on Guile and on Mes, against a model of the files it makes and by running the programs',
       'all command lines over the stated options with up to two inputs; every tool failing in every stated way'),
  C35=('exploration', 'exhaustive enumeration of expressions over operators, operand types, places and boundary values, compiled by the real MesCC for x86 and run next to the same program compiled by gcc -m32',
       'all combinations of the stated operators, types and places up to two operators deep, on every tuple of boundary values where C defines the result'),
)
NA = {}
def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             hooks=dict(guard='none', enable='no hooks are needed: the checks compile the sources of the working tree as they are', source_commits=[]),
             checks=[dict(property=p, quick_cmd='python3 checks/%s.py' % p.lower(),
                          thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py' % p.lower(),
                          technique=T[p][1], level=T[p][0], level_note=T[p][2]) for p in props if p in T],
             not_applicable=[dict(property=p, reason=NA.get(p, 'no check yet')) for p in props if p not in T])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
main()
