NA = {}
CHAINS = ("TLA+ specification of blocks and chains (tla/Chain.tla, Block.tla, EVM.tla); chains of valid and invalid blocks built for every "
          "fork are imported by the code and every verdict and resulting state is validated against the specification by TLC")
ROWS = ("the specification's operator for this rule, evaluated by TLC on every recorded call of the code's own function at and around the boundaries of each case")
STATES = ("TLA+ model of the state store and of the trie; histories printed by TLC's exhaustive search and generated ones are replayed on the code "
          "and every answer and root is validated against the model by TLC")
TECH.update({p: CHAINS for p in ("P20", "P21", "P22", "P23", "P24", "P33", "P36")})
TECH.update({p: STATES for p in ("P27", "P28", "P29")})
TECH["P31"] = "TLA+ model of fork schedules checked exhaustively by TLC; " + ROWS
TECH["P35"] = "TLA+ specification of ethash; " + ROWS
TECH["P30"] = ("TLA+ specification of a run of the transition tool on top of the specification of blocks; runs of the tool and imports of the same block "
               "are recorded and both validated against it by TLC")
NOTE_CHAIN = ("Chains start from every fork (and cross every fork boundary); each block is also offered in many corrupted forms. TLC computes accept or reject "
              "and the whole next state from the specification. Generated with a seed, not exhaustive. Trusted: TLC, Java overrides of arithmetic and hashing.")
NOTES.update({p: NOTE_CHAIN for p in ("P20", "P21", "P22", "P23", "P24", "P33", "P36")})
NOTES["P27"] = "Roots and tries of generated contents in all key orders and key/value shapes compared with the specification's trie (tla/Trie.tla). Not exhaustive; trusted: TLC, Java Keccak."
NOTES["P28"] = ("All histories of the small model (tla/OptState.tla, OptTour.cfg) are enumerated by TLC and replayed (a seeded part of them per fork in the quick tier), plus long "
                "generated histories with every getter's answer recorded.")
NOTES["P29"] = NOTES["P28"] + " The database library itself (Rust, third party) is trusted; a rollback across a computed root is outside the property."
NOTES["P30"] = ("Runs of t8n in this process and through the daemon, with JSON and RLP transactions, signing by the tool, invalid transactions in between, ommers, rewards, alternative fork names; "
                "output files, result and body are all compared. Generated with a seed, not exhaustive.")
TECH["P32"] = ("TLA+ specification of what a trace reports, as a function of the machine's steps (tla/Tracer.tla); the lines the tracers wrote "
               "for executions in all forks are validated against it by TLC, one by one")
NOTES["P32"] = ("Every line and file written by Eip3155Tracer, CountTracer and GroupTracer for generated programs (nested, failing, all options, through t8n and directly) is compared with the "
                "specification's step; outcomes are compared with runs without tracers. Seeded, not exhaustive. Which price a line reports when the instruction fails for a reason other than gas is left open.")

FORMS = "TLA+ specification of the external forms of blocks and of what the tools build and read (tla/Forms.tla); " + ROWS
TECH.update({"P37": FORMS, "P38": FORMS})
NOTES["P37"] = ("Valid encodings of every fork's objects and variants of each (fields dropped, added, swapped, widths, leading zeros, types, lists for texts) are decoded; b11r is run in this process; "
                "fixtures are read by the loaders. Seeded, not exhaustive. The RLP library (third party) is trusted for malformed lengths.")
NOTES["P38"] = "Generated configurations in every fork, read and applied by the code; block hash, state root and chain id compared with the specification's. Seeded, not exhaustive."

TECH["P39"] = ("TLA+ specification of a file of state tests and of a run of the transition tool (tla/Tool.tla); results of the real tool on generated files are validated against it by TLC")
NOTES["P39"] = "Generated files, read singly or as a list, with every option, in all forks and under all their names; the tool's root and verdict are compared with the specification's. Seeded, not exhaustive."

TECH["P40"] = ("TLA+ specification of a client that follows a provider (tla/Sync.tla), its two processes and its restarts checked exhaustively by TLC (SyncModel); "
               "runs of the real tool against a provider on the loopback interface, some ended from outside, are validated against it by TLC")
NOTES["P40"] = ("Chains that pass several forks, by both RPC methods, shuffled batches, growing chains, bad and misplaced blocks, several batches, databases kept, copied and reset over runs that are stopped or killed. "
                "Mostly the forks' verdicts are replaced by planted ones; in part the forks judge themselves. Seeded, not exhaustive; the model is exhaustive within its bounds.")
