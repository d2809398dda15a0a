"""What each check records and explores.

quick / thorough: traces per round (thorough repeats rounds with fresh traces).
mc: TLA+ modules model checked alongside, (module, config, extra arguments).
"""

BUILD = ('a trace builds a random expression over 1-4 variables (products, nested mixtures, derived variables, '
         'earlier conditioning and constraining); ')

PLAN = {
    'C01': dict(quick=3200, thorough=24000, rule='a trace combines two or three random outcome sets with every operator, '
                'asks membership at every endpoint and between them, and compares results for equality and hash'),
    'C02': dict(quick=420, thorough=2400, rule='a trace builds a random transform by the operators of the library, evaluates it, '
                'and solves comparisons and membership events of it; the solution set is compared with the preimage on every '
                'cell of a grid that contains all critical points'),
    'C03': dict(quick=110, thorough=420, rule='a trace solves equalities and inequalities of one polynomial with known rational '
                'roots symbolically, numerically and under a timeout; solutions are compared on every cell cut by the roots'),
    'C04': dict(quick=170, thorough=700, rule='a trace builds a random nested event over 1-3 variables, evaluates it at points and '
                'rewrites it to every normal form; equivalence is decided on all joint cells'),
    'C05': dict(quick=200, thorough=1600, rule=BUILD + 'and asks for probabilities of random Boolean events; the specification '
                'recomputes each exactly. Each trace has at least 5 queries.'),
    'C06': dict(quick=130, thorough=900, rule=BUILD + 'then conditions repeatedly and asks P(B|A) after every step, also events of '
                'probability zero and unknown variables'),
    'C07': dict(quick=400, thorough=2400, rule=BUILD + 'asks densities of assignments and constrains to them, then asks '
                'probabilities and densities of the result'),
    'C08': dict(quick=210, thorough=1200, rule='a trace runs random command trees (nested branches, loops, switches, mixtures, '
                'conditions, invalid commands) from nothing or on an existing distribution and queries the result'),
    'C09': dict(quick=150, thorough=800, rule=BUILD + 'defines chains of derived variables, also differently per mixture component, '
                'and asks events on them before and after conditioning and sampling'),
    'C11': dict(quick=210, thorough=1200, rule=BUILD + 'simplifies and deduplicates sums made of equal and nearly equal components, '
                'and interprets branches with simplification on and off'),
    'C12': dict(quick=240, thorough=1200, rule=BUILD + 'then interleaves repeated queries over several expressions sharing one memo '
                'table, with memoisation off, and after expressions were destroyed'),
    'C13': dict(quick=240, thorough=1200, rule=BUILD + 'saves to JSON text, loads, and queries the loaded expression'),
    'C14': dict(quick=240, thorough=1200, rule=BUILD + 'renders to source, compiles, and queries the compiled expression'),
    'C15': dict(quick=260, thorough=1400, rule=BUILD + 'draws joint, subset and function samples; each draw must be possible and '
                'frequencies of events lie within six standard deviations'),
    'C16': dict(quick=300, thorough=2000, rule='a trace builds expressions by operators and constructors, valid and invalid; the '
                'structure of every result is checked against the specified distribution'),
    'C17': dict(quick=150, thorough=900, rule=BUILD + 'asks mutual information of pairs of events (related, nested, sure, impossible)'),
    'C10': dict(quick=300, thorough=1800, rule='a trace writes a random program as text in a random spelling, compiles, executes and '
                'renders it, queries the result, and does the same with variants that may break a scope rule'),
    'C18': dict(quick=330, thorough=2400, rule='the first traces take every distribution of the catalogue once, later ones draw '
                'distribution, parameters, location and scale; events at quantiles, restrictions, densities, draws, tables'),
    'C19': dict(quick=300, thorough=2000, rule=BUILD + 'or mixtures with repeated and shared parts, up to 20 deep; draws it as full '
                'lists, concise lists and graph, compares each drawing with the expression, and queries it afterwards'),
    'C20': dict(quick=200, thorough=1200, mc={'quick': [('SessionMC.tla', 'SessionMC.cfg', [])]},
                gen={'quick': ('SessionMC.tla', 'SessionGen.cfg', 400, 13)}, rule='a trace is a notebook session over three model names: cells with valid, invalid and '
                'unreadable programs, redefinitions, and every kind of request, partly following behaviours of SessionMC.tla'),
}
