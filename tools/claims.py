CLAIMS = {
 "C01": "All line sequences up to the depth bound, executed on the real parser through every entry point and compared with a reference splitter automaton; no sampling. Bounded: longer streams than the depth are represented only by block words.",
 "C02": "Every read-error offset, every two-cut chunking and every line-length class of the corpus streams, executed on the real parser and signer. Bounded by the corpus of streams.",
 "C03": "All manifests with up to two deviating fields, all short document sequences and all field presence patterns, compared with the value they were emitted from and round-tripped through JSON and YAML encoding. Bounded by the value representatives.",
 "C04": "All spellings (every scalar type, quoted scalar, sequence, mapping key subset, unknown keys) of every field that has a short and a long form, compared with the meaning given by a reference table. Bounded by the value representatives.",
 "C05": "Every node of eleven documents covering every field of every format, under every change of a list of about a hundred (and all pairs of siblings; thorough: all pairs of nodes), every position of their text under several byte changes, all texts of up to three (thorough: four) tokens, and all two-document streams, run through every entry point.",
 "C06": "All manifests with up to two (thorough: three) deviating fields, all null/empty entry patterns and all short resource sequences: parse(print(m)) compared with m. Bounded by the value representatives.",
 "C07": "Fixpoint and framing of the formatter on the manifest space of C06.",
 "C08": "All strings up to length three over a YAML-significant alphabet plus type-lookalike words in every string position, all setting value trees up to depth three. One known finding (strings starting with & or !).",
 "C09": "Every manifest with up to two deviating privilege-relevant fields over all steps, services and volume declarations, linted as trusted and untrusted and compared with the reference verdict.",
 "C10": "All step name and dependency graphs up to four nodes with every dependency set and name assignment, clone enabled or not, compared with the reference verdict and an independent cycle search.",
 "C11": "All manifests of up to four resources with every name, dependency set, kind, type and platform assignment within bounds, compared with the reference verdict.",
 "C12": "Every manifest with up to two deviating fields over all lintable positions, trusted and untrusted, compared with the reference verdict in both directions.",
 "C13": "Every pipeline of up to three steps and two services over all dependency relations is compiled by the real code, and every schedule of the resulting plan is explored under a model of the runtime's rules (serial or dependency graph). drone-runtime itself cannot be built here (a module is missing), so the scheduling rules are modelled.",
 "C14": "Product over condition fields, status lists and build metadata for steps, services and build steps, compared with a reference skip and run policy.",
 "C15": "Product of image references, whitelists, commands, command, entrypoint, build and privileged flag in every container position, compared with a reference policy.",
 "C16": "All small environment and settings maps over key shapes and the value domain across several containers, compared with a reference rendering.",
 "C17": "All small assignments of volumes, mounts and containers including reserved names, default and host workspace, compared with a reference plan.",
 "C18": "Product of base, path, platform, container kind, commands and working directory in both workspace modes, compared with a reference.",
 "C19": "Single and pairwise (thorough: three-way) deviations of all pipeline and container fields in every position for every platform, compared field by field with a reference compiler.",
 "C20": "Every command list within bounds is compiled and the generated script executed by a real /bin/sh in a scratch directory; trace and exit status compared with a model.",
 "C21": "Every command list within bounds is compiled and the decoded script read by an independent lexer for PowerShell quoting; no PowerShell is available here to execute it.",
 "C22": "All pipelines with up to two build steps and three consumers over equivalent and near-equivalent references, compared with a reference.",
 "C23": "Every pipeline of the C19 space compiled twice and between other pipelines, with mutation probes on inputs and results, and uniqueness of all identities under adversarial random sources.",
 "C24": "All sequences of up to three transforms (thorough: four on one plan) over two or more argument choices each on several compiled plans, in lock-step with an independent interpreter of the documented effects.",
 "C25": "All sequences of up to three filters over all name subsets on plans with up to four steps with every run policy, in lock-step with a set-based model.",
 "C26": "All plans of up to three steps over run policies and secret lists, combined with filter histories and every provider behaviour, observing every provider request and the resulting plan.",
 "C27": "All references assembled from a grammar and all pairs of a reference set, compared with an independent model of the reference grammar.",
 "C28": "All patterns and values over a small alphabet up to length four, and all include/exclude lists over a pattern set, compared with an independent matcher.",
 "C29": "All sequences of up to three documents with the signature at every position, every one-step (thorough: two-step) tampering of signed streams, every variation of the signature value and all key lengths; signatures are checked to be one-to-one with key and content over the whole explored space. One known finding (document boundaries are not covered).",
 "C30": "All operation histories up to a depth over reachable stream states (breadth-first, merged by content), executed on the real signer and compared with a reference splitter.",
 "C31": "All pairs (thorough: triples) of legacy fields and spellings in clone, service and step position and at document level, for every combination of conversion options, compared with a reference conversion.",
 "C32": "All matrices of up to three keys with up to three (thorough: four) values over hostile value sets, include lists and restrictions, compared with the cartesian product and a structural substitution.",
 "C33": "All pairs (thorough: triples) of job and global fields and all assignments of jobs to stages and of colliding names to jobs and services, compared with a reference conversion.",
 "C34": "All pairs of branch and tag patterns against all refs of the domain, all short step lists, all name assignments and all combinations of the global settings, compared with a reference conversion.",
 "C35": "Product of contents of every format, file names, refs and remotes in the full and the oss build; detection of legacy files over all short prefixes and suffixes; results converted again.",
 "C36": "Every operation is run on the real code with the Go runtime's map iterator under the control of the check (build-time overlay of the runtime): all permutations of tables of up to four entries and all rotations of larger ones, applied to all iterations alike and to each single iteration (and pair of iterations) alone; all runs must give the same bytes.",
 "C37": "All histories of two (thorough: three) of 54 operations, and all interleavings of two operations with one preemption at every executed statement (thorough; quick: every distinct statement or function) and two preemptions for operations of one kind, executed on the real code with yield points inserted at build time and a controlled scheduler; results are compared with the operation run first in a fresh process. The same schedules run under the race detector with a scheduler that adds no ordering.",
 "C38": "Every command on every file content reachable from seventeen initial files by up to two (thorough: four) commands and edits, all histories of three (thorough: four) commands in one directory, and every command under every fault of its output or file, executed with the real binary as an unprivileged user and compared with the composition of library operations. Not covered: a closed (rather than failing) output descriptor, which the Go runtime replaces, and a crash in the middle of rewriting the file.",
 "C39": "Every call with up to two (thorough: three) options out of 25 option groups, every manifest with every option (thorough: pair), executed with the real binary; the printed plan is compared with the library's plan changed by an independent description of each option.",
 "C40": "Every manifest of the enumerated space is encoded and decoded in both forms by the real code and compared with the original field by field, and by lint, format and compile. Two known findings: a plugin setting with the text null or ~, and the mapping key <<, do not survive the YAML encoder of the dependency.",
 "C41": "Every configuration of the spaces of C31-C34 (all pairs, thorough triples, of fields and spellings of all three formats, matrices, stage and name assignments) converted, linted and compiled.",
 "C42": "Forty library transformations and eight adversarial ones on every one-deviation (thorough: two-deviation) pipeline and every combination of two builds and two images; every pair of subsets of skipped and privileged containers of a five-container pipeline; credentials on every pipeline; all compared with the same compilation without the callback.",
}
NOT_APPLICABLE = {}
NOTES = "run.sh builds the harness against /repo's current tree in a private directory and runs one check; see DESIGN.md."
HOOKS = None
