# Single source of truth for properties.jsonl and the check list of
# MANIFEST.json.  `python3 tools/gen.py` regenerates both.
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None,
      technique="explicit-state exploration of the real code against a reference model",
      note="", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=state, observe=observe, hook=hook,
                  technique=technique, note=note, claimed=claimed, reason=reason))

# ---------------------------------------------------------------- yaml stream
p("C01", "A configuration stream is split into exactly the documents it contains",
  "Reading a multi-document configuration yields, in order, one resource per document: a line that starts with '---' ends the current document and starts the next, a line that starts with '...' ends the stream, and every other line belongs, unchanged except for its line ending (LF or CRLF), to the document it stands in. The bytes kept for each document, its kind, type and version, and the resources decoded from it do not depend on whether the stream is supplied as a string, bytes, file or reader.",
  ["inputs", "histories"], "every sequence of input lines (separators, terminators, near-separators, content lines, empty lines, LF/CRLF, final line with or without newline) up to the depth bound, through every entry point",
  "Tests split one hand-written file; separators that carry text, adjacent or leading/trailing separators, terminators inside a stream and CRLF are never combined.",
  ["yaml/parse.go"], [("line scanner state machine", "yaml/parse.go ParseRaw"), ("separator and terminator recognition", "yaml/parse.go isSeparator/isTerminator")],
  state=[("current document", "the document new lines are appended to", "yaml/parse.go ParseRaw: resource")],
  technique="explicit-state enumeration of all line sequences to a depth, lock-step with a reference splitter automaton")

p("C02", "Reading never silently loses part of the configuration",
  "For every way a reader may deliver the bytes (any chunking, data together with end-of-file) the parsed result is the same as for the whole input at once. If the reader fails before the end of the stream, or a line cannot be read in full, parsing, signing and verifying report an error; they never return a result computed from only part of the input.",
  ["fault_sequences", "inputs"], "every chunking of the corpus streams with up to two cut points, a read error injected at every byte offset, and single lines of every length class around the scanner limits",
  "No test uses a reader that fails or returns short reads, or a line longer than a few hundred bytes.",
  ["yaml/parse.go", "yaml/signer/signer.go"], [("buffered line scanner and its error", "yaml/parse.go ParseRaw")],
  technique="exhaustive fault injection: every read-error offset and every two-cut chunking of each stream")

p("C03", "Each document becomes a resource of its declared kind, or parsing fails",
  "A document whose kind is cron, secret, signature, registry or pipeline becomes a resource of exactly that kind with exactly the declared values; any other non-empty kind is read as a pipeline that keeps its kind; and a document without a kind makes parsing of the whole stream fail. Resources keep the order of the documents, and a manifest encoded to JSON and decoded again, or encoded to YAML documents and parsed again, has the same resources with the same kinds in the same order.",
  ["inputs"], "every sequence of up to three documents over the kinds (known, unknown, missing, wrong case, wrong type) and every single- and pair-wise field population of each kind",
  "Tests parse one manifest with one resource of each kind.",
  ["yaml/parse.go", "yaml/manifest.go", "yaml/cron.go", "yaml/secret.go", "yaml/registry.go", "yaml/signature.go", "yaml/pipeline.go"],
  [("kind dispatch", "yaml/parse.go parseRaw"), ("kind dispatch for JSON", "yaml/manifest.go UnmarshalJSON")])

p("C04", "Short and long spellings of a value mean the same thing",
  "Wherever the configuration allows a short spelling, it decodes to the same value as the long one: build and push images, ports, environment variables, settings, conditions (single value, list, include/exclude) and byte sizes (plain number or number with unit). A from_secret reference always decodes to a reference to exactly that secret and never to a literal value, and a value that fits none of the accepted spellings of its field is reported as an error instead of being replaced by an empty value.",
  ["inputs"], "the product of field, spelling (scalar of each YAML type, quoted scalar, sequence, mapping with each subset of known keys, unknown keys) and value",
  "Tests check a handful of spellings per field, one value each.",
  ["yaml/build.go", "yaml/push.go", "yaml/port.go", "yaml/env.go", "yaml/param.go", "yaml/cond.go", "yaml/unit.go"],
  [("try short form, fall back to long form", "UnmarshalYAML methods in yaml/*.go")])

p("C05", "No configuration makes the toolkit crash",
  "For every input text, parsing, linting, formatting, signing, verifying and converting return a result or an error and never panic or hang; compiling any pipeline that linting accepts never panics either.",
  ["inputs"], "every one- and two-point structural mutation (node deleted, nulled, or replaced by a scalar, sequence, mapping, alias; list entries nulled) of configurations that exercise every field, for every document format",
  "Tests only supply well-formed configurations; null list entries and wrong node types are not sampled.",
  ["yaml/parse.go", "yaml/linter/linter.go", "yaml/pretty", "yaml/compiler", "yaml/signer/signer.go", "yaml/converter"],
  [("nil checks before dereference", "yaml/pretty/pipeline.go, yaml/compiler/step.go, yaml/linter/linter.go")],
  technique="exhaustive structural mutation (all 1- and selected 2-point) of full-coverage documents, executed on the real code")

# ---------------------------------------------------------------- formatter
p("C06", "Formatting a configuration preserves its meaning",
  "For every manifest the parser can produce, parsing the formatter's output yields a manifest with the same resources in the same order and with the same kind, names and values in every field the formatter supports, except that a missing target platform is made explicit as linux/amd64 and encrypted secret and registry data may be re-wrapped (white space inside it is not significant). This covers the whole stream: pipelines, cron jobs, secrets, registry credentials and signatures, in any combination.",
  ["inputs"], "every resource kind with up to two (quick) or three (thorough) fields deviating from the default over representative values, plus all sequences of up to three resources",
  "Golden-file tests cover about twenty fixed documents; interactions between neighbouring fields (indentation, omitted empty values, nested sequences) are not sampled.",
  ["yaml/pretty"], [("per-kind printers", "yaml/pretty/*.go"), ("indentation writer", "yaml/pretty/writer.go")],
  technique="explicit-state enumeration of manifests (t-way field deviations), parse-print-parse on the real code")

p("C07", "Formatting is idempotent and writes one complete document stream",
  "Formatting already formatted text changes nothing: print(parse(print(m))) equals print(m) byte for byte. The output starts every resource with its own '---' line, ends with a single '...' line, contains no carriage returns, and printing the same manifest again gives the same bytes.",
  ["inputs"], "the same manifest space as C06",
  "Only golden comparisons of a first formatting exist; nothing re-formats the output.",
  ["yaml/pretty"], [("document framing", "yaml/pretty/pretty.go Print")],
  technique="explicit-state enumeration of manifests, fixpoint check on the real formatter")

p("C08", "Formatting preserves every scalar and every nested setting value",
  "Whatever string stands in a string-typed position of a configuration (names, images, commands, environment values, map keys, condition patterns and so on), the formatted text parses back to exactly that string, and whatever value stands in a plugin setting (string, number, boolean, null, list or mapping, nested to any depth) parses back to an equal value of the same kind (numbers compare by value). Strings are never turned into numbers, booleans, nulls, comments, aliases or structure.",
  ["inputs"], "every string up to length 3 over an alphabet of YAML-significant characters plus all words that look like other YAML types, in every string position; every setting value tree up to depth 3 over the leaf set",
  "Tests quote about twenty sample strings; they never place them at every position or nest them.",
  ["yaml/pretty/util.go", "yaml/pretty/writer.go", "yaml/pretty/container.go", "yaml/pretty/secret.go"],
  [("quoting decision", "yaml/pretty/util.go isQuoted"), ("value writer", "yaml/pretty/writer.go writeValue")],
  technique="exhaustive enumeration of all short strings and bounded value trees per position, parse-print-parse on the real code")

# ---------------------------------------------------------------- linter
p("C09", "Lint rejects every privileged feature in an untrusted repository",
  "For an untrusted repository, linting fails for every pipeline in which any step or service enables privileged mode, mounts devices, sets dns, dns_search, extra_hosts or network_mode, or maps a host port, and for every pipeline that declares a host volume or an in-memory volume. None of these is a lint error for a trusted repository, and everything lint rejects for a trusted repository it also rejects for an untrusted one.",
  ["inputs", "configurations"], "every subset of up to three privileged features placed in up to three containers (steps and services, first/middle/last) and volumes, trusted and untrusted, combined with harmless settings",
  "Tests have one file per feature, always on the first step.",
  ["yaml/linter/linter.go"], [("per-container checks", "yaml/linter/linter.go checkContainer"), ("volume checks", "yaml/linter/linter.go checkVolumes")])

p("C10", "Lint accepts exactly the well-formed step graphs",
  "Linting a pipeline fails if two steps or services have the same name, if a step or service takes the name clone while the default clone step is enabled, or if a step depends on itself or on a name that is neither the enabled clone step nor a step declared before it; otherwise names and dependencies are accepted. Hence the dependency graph of every accepted pipeline's steps is acyclic and closed, so a pipeline with a cycle of any length is never accepted.",
  ["inputs", "programs"], "all pipelines with up to four named steps over three or more names and all dependency relations among them (including clone and unknown names), with up to two services, clone enabled and disabled",
  "Tests have one two-step file per error.",
  ["yaml/linter/linter.go"], [("names seen so far", "yaml/linter/linter.go checkPipeline"), ("dependency check", "yaml/linter/linter.go checkDeps")],
  technique="explicit-state enumeration of all small step graphs against a graph-theoretic oracle")

p("C11", "Manifest lint accepts exactly the well-formed pipeline graphs",
  "Linting a manifest fails if two pipelines have the same name, or if a pipeline depends on itself or on a name that is not a pipeline declared before it, or if a docker pipeline (type docker or unspecified) targets an unsupported platform; otherwise it succeeds, whatever other resources stand between the pipelines. Consequently no accepted manifest has a cyclic or dangling pipeline dependency.",
  ["inputs", "programs"], "all manifests of up to four resources over pipeline names, dependency lists, types, platforms and interleaved non-pipeline resources",
  "Tests have one small file per error.",
  ["yaml/linter/config.go"], [("names seen so far", "yaml/linter/config.go checkPipelines")],
  technique="explicit-state enumeration of all small manifests against a graph-theoretic oracle")

p("C12", "Lint enforces each resource's validity rules and nothing more",
  "Linting fails for a step or service without a name, without an image (or, when it builds one, without the image to build), or that mounts one of the reserved volumes workspace, _workspace and _docker_socket, for a pipeline that declares a reserved volume name or an unsupported operating system or architecture, for a cron job without branch, a secret without data and without external path or name, a registry without credentials, and a signature without hmac, whether or not the repository is trusted. A resource that breaks none of the documented rules is accepted.",
  ["inputs", "configurations"], "all single and pairwise rule violations in every container position, all platform values, every presence pattern of the non-pipeline fields",
  "Tests check one violation at a time on the first step only; acceptance is checked on one file.",
  ["yaml/linter/linter.go", "yaml/cron.go", "yaml/secret.go", "yaml/registry.go", "yaml/signature.go"],
  [("validity checks", "yaml/linter/linter.go"), ("Validate methods", "yaml/*.go Validate")])

# ---------------------------------------------------------------- compiler
p("C13", "The compiled plan runs every step, and only after everything it must wait for",
  "A compiled pipeline contains the clone step first (unless cloning is disabled), then every service (always detached), then every step, each once and in declaration order. If no step or service declares dependencies the plan carries none and runs serially in that order; otherwise each step keeps exactly its declared dependencies, steps without any and all services wait for the clone step if there is one, and under every schedule of the dependency graph no step starts before clone and its declared dependencies have finished and every runnable step of an accepted pipeline eventually starts.",
  ["schedules", "configurations"], "every pipeline with up to three steps and two services over all dependency relations, clone on/off; for each, every schedule of the plan under the runtime's graph semantics",
  "Tests compile a few fixed graphs and compare golden plans; no schedule is executed.",
  ["yaml/compiler/compiler.go"], [("serial/graph decision and clone dependency", "yaml/compiler/compiler.go Compile")],
  technique="explicit-state: all small step graphs compiled by the real code, then all schedules of the compiled plan explored")

p("C14", "A step runs exactly under the conditions it declares",
  "A compiled step or service is marked never-run exactly when the skip policy rejects it or its status condition admits neither success nor failure; otherwise its run policy is on-failure, on-success or always according to the status condition, failure being admitted only when it is explicitly included. The standard skip policy rejects a step exactly when at least one of its branch, cron, event, instance, ref, repo, target or action conditions does not match the build's value.",
  ["inputs", "configurations"], "the product over all condition fields (absent, matching, non-matching include/exclude), all status include/exclude lists up to length two, and all build metadata values in the domain; steps, services and build steps",
  "Tests check one field at a time with one value.",
  ["yaml/compiler/skip.go", "yaml/compiler/convert.go", "yaml/compiler/compiler.go", "yaml/cond.go"],
  [("skip evaluation", "yaml/compiler/skip.go SkipFunc"), ("status mapping", "yaml/compiler/convert.go toRunPolicy")])

p("C15", "A container is privileged only if declared so or whitelisted as a plain plugin",
  "A compiled step or service is privileged exactly when its configuration says so (steps that build an image excepted) or the privileged policy accepts it; the clone step never is. The standard policy accepts exactly the containers whose image repository equals a whitelisted one, ignoring tag, digest and the default registry prefix, and that set no commands, no command and no entrypoint.",
  ["inputs", "configurations"], "the product of image references, whitelists of up to two images, presence of commands/command/entrypoint/build, privileged flag, and container position",
  "Tests check three images and one override each.",
  ["yaml/compiler/dind.go", "yaml/compiler/image/image.go", "yaml/compiler/compiler.go", "yaml/compiler/step.go"],
  [("whitelist policy", "yaml/compiler/dind.go DindFunc")])

p("C16", "Environment, settings and secrets reach exactly the declared variables",
  "In a compiled step (other than one that builds an image) every environment entry becomes the variable of that name and every plugin setting the variable PLUGIN_ plus its upper-cased name, literals with their text value (lists of scalars comma-joined, other structures as JSON) and secret references only as a secret variable naming that secret, never as a literal; null entries are left out. No other variables or secret references appear, except the documented workspace, clone, script and build variables, and no value leaks from one step to another.",
  ["inputs"], "all environment/settings maps of up to two entries over key shapes and the value domain (all scalar types, lists, nested maps, nulls, secret references), across two steps and a service",
  "Tests encode a few values and compile single golden files.",
  ["yaml/compiler/step.go", "yaml/compiler/encode.go", "yaml/param.go", "yaml/env.go"],
  [("environment mapping", "yaml/compiler/step.go createStep"), ("settings encoding", "yaml/compiler/encode.go")])

p("C17", "Volumes are mounted as declared and the docker socket only into build steps",
  "Every compiled container, other than a step that builds an image, mounts exactly the volumes it declares, at the declared paths and in that order, followed by the workspace; every declared volume appears once in the plan with its medium and size limit or host path, after the workspace volume. The host's docker socket is mounted only into steps that build an image, at /var/run/docker.sock, is present in the plan only if there is such a step, and can never be mounted by naming its internal volume.",
  ["inputs", "configurations"], "all pipelines with up to two volumes and up to three containers (clone, service, step, build step) over mount lists of length up to two including reserved names, default and host workspaces",
  "Golden tests cover a single volume and a single build step.",
  ["yaml/compiler/compiler.go", "yaml/compiler/step.go", "yaml/compiler/workspace.go"],
  [("volume conversion", "yaml/compiler/compiler.go Compile"), ("socket exclusion", "yaml/compiler/step.go createStep")])

p("C18", "Every container sees one workspace, mounted and announced consistently",
  "All containers of a compiled pipeline mount the workspace at the configured base (default /drone/src) and receive the same base, path and full path variables, the full path being the cleaned join of base and path, in Windows form with drive letter on Windows. The clone step, every step that is not detached and every container with commands start in the full workspace path, whatever working directory they declare, while services and detached steps without commands keep their own working directory or none; with a host workspace the host directory is mounted at the full path and the shared volume at the base only when a path is set.",
  ["inputs", "configurations"], "the product of base and path values, operating systems, container kinds, detach, commands, working directories, and the default and host workspace modes",
  "Tests check four base/path pairs and individual helper functions.",
  ["yaml/compiler/workspace.go", "yaml/compiler/step.go"], [("workspace paths", "yaml/compiler/workspace.go createWorkspace"), ("working directory rule", "yaml/compiler/workspace.go setupWorkingDir")])

p("C19", "Compilation carries every container setting into the plan unchanged",
  "Name, image (fully qualified, default tag latest), entrypoint, command, dns, dns_search, extra_hosts, network mode, ports, user, resource limits and requests (cpu in millicores), detach flag, failure policy and pull policy of each step and service appear in the compiled step as declared (a step that builds an image runs the build image with the declared build options instead), and the pipeline's name, kind, type and platform in the plan. The clone step uses the clone image for the target platform, pulled only if missing, with the configured depth and TLS verification settings and, if credentials are supplied, a credentials file mounted into it and into no other step.",
  ["inputs", "configurations"], "single and pairwise (thorough: three-way) deviations of every container and pipeline field over representative values, in step, detached step, service and build step position, for every platform",
  "Golden tests compile about a dozen files.",
  ["yaml/compiler/step.go", "yaml/compiler/convert.go", "yaml/compiler/clone.go", "yaml/compiler/compiler.go"],
  [("container conversion", "yaml/compiler/step.go"), ("clone step", "yaml/compiler/clone.go")])

p("C20", "The generated shell script runs the declared commands, in order, as written",
  "On non-Windows platforms a step with commands runs /bin/sh on one generated file that executes exactly the declared commands in order in one shell, announces each command by its text before running it without evaluating anything in it, stops at the first failing command with a non-zero status, and runs with git credentials removed from the environment after saving them for the configured machine. The command, entrypoint and images of steps without commands are left alone.",
  ["inputs", "programs"], "all command lists up to length three over an alphabet of shell-significant command texts and failing/succeeding commands, each script executed by a real shell in a scratch home, with and without netrc variables",
  "Tests compare one generated script with expected text and never run it.",
  ["yaml/compiler/script_posix.go", "yaml/compiler/step.go"], [("script template and escaping", "yaml/compiler/script_posix.go")],
  technique="exhaustive enumeration of command lists; every generated script is executed by /bin/sh and its trace compared with a model")

p("C21", "The generated PowerShell script contains the declared commands, in order",
  "On Windows a step with commands runs powershell on a script passed, base64 encoded, in one variable, and its SHELL variable names powershell; that script announces each declared command as a single literal and then runs it followed by an exit-code check, in declaration order, after clearing the credentials and the script variable from the environment. No command text can end the announcing literal early, so announcing a command never evaluates any part of it.",
  ["inputs"], "all command lists up to length two over an alphabet of PowerShell-significant texts, decoded and re-tokenised by an independent PowerShell single-quote lexer",
  "One test compares a fixed script.",
  ["yaml/compiler/script_win.go"], [("script template and escaping", "yaml/compiler/script_win.go")],
  technique="exhaustive enumeration of command lists, generated script checked by an independent lexer model (no PowerShell here)")

p("C22", "References to an image built in the pipeline use the freshly built one",
  "When steps build images, every compiled container whose image is one of them (same repository and tag after normalisation) is rewritten to the unique alias under which that image was built in this run, the build step announces that same alias, and containers with any other image, including the same repository with a different tag, are left unchanged. Different runs use different aliases.",
  ["inputs", "configurations"], "all pipelines with up to two build steps and three consumers over an alphabet of equivalent and near-equivalent image references",
  "One golden test with one build step.",
  ["yaml/compiler/compiler.go", "yaml/compiler/step.go", "yaml/compiler/image/image.go"], [("alias renaming", "yaml/compiler/compiler.go Compile")])

p("C23", "Compilation is repeatable and side-effect free, with unique identities",
  "Compiling leaves the pipeline it was given unchanged, and compiling the same pipeline twice, before or after compiling others, gives plans that are equal up to freshly generated identifiers and share no mutable state with each other. Within and across plans all identifiers are distinct, 32 characters of lower-case letters and digits, and every object of a plan carries the plan's namespace.",
  ["inputs", "histories"], "the C19 pipeline space, each compiled twice and interleaved with a second pipeline; mutation probes on every result; adversarial random byte sources",
  "Tests ignore identifiers and compile once.",
  ["yaml/compiler/compiler.go", "yaml/compiler/internal/rand/rand.go"], [("identifier generation", "yaml/compiler/internal/rand/rand.go")])

p("C24", "Spec transforms compose and touch exactly what they promise",
  "Applying any sequence of transforms gives the same plan as applying their documented effects one after the other: environment and proxy variables reach every step, labels the plan and every step and volume, limits, networks and volumes every step, registry credentials and secrets the plan, netrc credentials every step and only when both user and password are known. Everything a transform does not document is left as it was, and later transforms win where both write the same key.",
  ["histories", "inputs"], "all sequences of transforms up to length three over two argument choices each (including empty ones), on several base plans, against a reference interpreter",
  "Each transform has one unit test on a one-step plan; combinations are not tested.",
  ["yaml/compiler/transform"], [("transforms", "yaml/compiler/transform/*.go"), ("composition", "yaml/compiler/transform/combine.go")],
  technique="explicit-state exploration of all transform sequences to a depth, lock-step with a reference interpreter")

p("C25", "Step filters only ever disable steps, and never the clone step",
  "Restricting a plan to included steps, excluding steps, or resuming at a step sets exactly the named set of steps to never-run (those not included, those excluded, or those before the resume point) and changes nothing else; a step that was not going to run is never enabled and the clone step is never disabled. An empty selection changes nothing.",
  ["inputs", "histories"], "all sequences of up to three filters over all name subsets on plans with up to four steps with every run policy, clone present at any position or absent",
  "One three-step example per filter.",
  ["yaml/compiler/transform/filter.go"], [("filters", "yaml/compiler/transform/filter.go")],
  technique="explicit-state exploration of all filter sequences to a depth, lock-step with a set-based model")

p("C26", "Secret values are fetched only for steps that can run",
  "Resolving secrets asks the provider for each distinct secret referenced by at least one step that is not marked never-run, exactly once, and for no other; exactly the secrets the provider returns become part of the plan, with their value unchanged and with the plan's namespace. The order of filters and skip conditions before resolution therefore decides which secrets leave the store.",
  ["inputs", "histories"], "all plans of up to three steps over run policies and secret lists, combined with all filter sequences up to length two, and providers that know any subset of the secrets",
  "One test with two steps.",
  ["yaml/compiler/transform/secret.go"], [("used-secret set", "yaml/compiler/transform/secret.go WithSecretFunc")],
  technique="explicit-state exploration of plans x filter histories x provider behaviours")

# ---------------------------------------------------------------- image / cond
p("C27", "Image references are normalised and compared consistently",
  "Normalising an image reference to its familiar repository name or to its full name is idempotent, keeps registry, repository, tag and digest, adds the default registry, library prefix and latest tag exactly when missing, and leaves text that is not an image reference unchanged. Two references match exactly when their repositories are equal, match by tag exactly when their full names are equal, and belong to a registry host exactly when that host is their registry, the default registry being known as docker.io and index.docker.io.",
  ["inputs"], "every reference assembled from the grammar of optional registry (with port, localhost, upper case), path components, tag and digest, plus malformed references; all pairs for matching",
  "Tests list about thirty samples.",
  ["yaml/compiler/image/image.go"], [("reference normalisation", "yaml/compiler/image/image.go")],
  technique="exhaustive enumeration of references from a grammar and all pairs, against an independent reference-grammar model")

p("C28", "Conditions match by include and exclude patterns, exclude winning",
  "A condition matches a value exactly when no exclude pattern matches it and either some include pattern does or there is no include pattern. Patterns are anchored globs in which * and ? stop at a slash, ** crosses slashes as a whole path component, and character classes and alternatives are supported; a malformed pattern matches nothing.",
  ["inputs"], "all include/exclude lists up to length two over a pattern set, times a value set; all patterns up to length four and values up to length four over a small alphabet against an independent glob matcher",
  "Tests list a dozen pattern/value pairs.",
  ["yaml/cond.go"], [("include/exclude evaluation", "yaml/cond.go Match")],
  technique="exhaustive enumeration of short patterns and values against an independent matcher")

# ---------------------------------------------------------------- signer
p("C29", "A signature verifies exactly the content it was computed for",
  "Verification succeeds for a configuration that carries the signature computed with the same key over the same content, wherever in the stream the signature document stands, and fails after any change to the content of a signed document (including inserting, deleting, duplicating or reordering documents with content), with any other key, and with a missing, truncated or altered signature. Keys shorter than 32 bytes are refused, and altering the signature document never changes the computed signature.",
  ["inputs", "histories"], "all streams of up to three documents, every single-line edit (delete, duplicate, swap, insert, character change), every position of the signature, every truncation and single-character change of the hmac, and key variations",
  "Tests verify one good and a few bad samples.",
  ["yaml/signer/signer.go", "yaml/parse.go"], [("keyed hash over all other documents", "yaml/signer/signer.go sign"), ("constant-time comparison", "yaml/signer/signer.go Verify")],
  technique="exhaustive enumeration of small streams and of all one-step tamperings, executed on the real signer")

p("C30", "Signing in place is idempotent and preserves every other document",
  "Adding or updating the signature of a configuration yields a stream that verifies with the same key, has exactly one signature document, placed last, and keeps the bytes and order of all other documents; signing again, with any history of earlier signatures, yields the same bytes. Writing a given signature has the same effect with that signature, and any input that cannot be parsed gives an error.",
  ["inputs", "histories"], "all histories of up to three operations (sign with either of two keys, write a signature, verify, edit a document) from all small streams with zero to two existing signature documents in any position",
  "Tests update two samples.",
  ["yaml/signer/signer.go"], [("signature replacement", "yaml/signer/signer.go SignUpdate, upsert")],
  technique="explicit-state exploration of operation histories over stream states, on the real signer")

# ---------------------------------------------------------------- converters
p("C31", "Legacy configurations convert to equivalent pipelines",
  "Converting a legacy configuration yields a parseable manifest whose pipeline has the legacy workspace, clone, services and pipeline steps in order with the same image, commands, environment, secrets, settings, volumes, conditions and flags, each step named uniquely among the steps, services and the default clone step (unique names are kept), plus the legacy branch filter as trigger and one secret resource per external secret. Legacy-only spellings (deploy events, list-style environment, boolean pull, volume strings, merge keys) are translated to their current equivalents; an unquoted number or boolean in a container may be carried over in its canonical spelling. A configuration in which a value does not fit its field is refused, never converted without that value.",
  ["inputs", "configurations"], "pairwise (thorough: three-way) deviations of every legacy field over its spellings in step, service and clone position, with each conversion environment option, against a reference converter",
  "Eight golden files.",
  ["yaml/converter/legacy/internal", "yaml/converter/legacy/convert.go"], [("legacy conversion", "yaml/converter/legacy/internal/config.go")])

p("C32", "A build matrix expands to exactly its combinations",
  "A matrix given as lists expands to one pipeline per combination of one value per key, each combination exactly once up to the documented limits, and a matrix given as an include list expands to exactly the listed combinations in order; pipelines are numbered from one. In each of them every ${KEY} reference is replaced by that combination's value, and steps and services restricted to matrix values are kept exactly when their restriction names a value of this combination.",
  ["inputs"], "all matrices of up to three keys with up to three values, include lists up to length three, with references and single-key matrix restrictions in steps and services",
  "Three unit tests and two golden files.",
  ["yaml/converter/legacy/matrix/matrix.go", "yaml/converter/legacy/internal/config.go"], [("combination enumeration", "yaml/converter/legacy/matrix/matrix.go calc"), ("substitution", "yaml/converter/legacy/internal/config.go Convert")],
  technique="exhaustive enumeration of small matrices against the cartesian-product model")

p("C33", "GitLab configurations convert stage by stage",
  "Converting a GitLab configuration yields one pipeline per stage in stage order, each depending on the previous one, containing exactly the jobs of that stage with the job's image (or the global one) and the job's entrypoint and command, the commands global-before, job-before, script, job-after, global-after in that order, and failures ignored exactly for jobs that allow failure; global services become services of every pipeline. Jobs that name no stage belong to the stage test; without stages every job gets its own pipeline. Jobs and services keep their names unless a name is already taken in that pipeline, the default clone step included; names are unique. A configuration in which a value does not fit its field is refused, never converted without that value.",
  ["inputs"], "pairwise deviations over job and global fields with up to three jobs and three stages, all job-to-stage assignments",
  "One golden file (unreliable, excluded from the stable tests).",
  ["yaml/converter/gitlab"], [("stage conversion", "yaml/converter/gitlab/convert.go")])

p("C34", "Bitbucket configurations convert the pipeline selected by the build's ref",
  "Converting a Bitbucket configuration selects the tag pipeline whose pattern matches the tag, else the branch pipeline whose pattern matches the branch, else the default one, and yields a single pipeline with its steps in order, each with its own image or the global one, its script as commands and a unique name (its own unless that is taken by another step, a service or the clone step; generated when missing), the steps of parallel groups in sequence, the configured clone depth, and one service per defined service with its image and variables. A configuration in which a value does not fit its field is refused, never converted without that value.",
  ["inputs"], "all combinations of default/branch/tag pipelines over patterns and refs, all lists of up to three (thorough: four) kinds of steps and groups, all assignments of names to steps and services, services with and without variables",
  "Two golden files and one ref table.",
  ["yaml/converter/bitbucket"], [("pipeline selection", "yaml/converter/bitbucket/config.go Pipeline")])

p("C35", "Conversion is dispatched by format and is the identity on current configurations",
  "The conversion is chosen by the file name for Bitbucket and GitLab files and otherwise by whether the content is a legacy configuration; under any other file name a configuration in the current format is returned byte for byte unchanged. Converting the result of any conversion again (under the ordinary file name) changes nothing, every conversion result parses, and with third-party conversion compiled out every input is returned unchanged.",
  ["inputs", "configurations"], "all combinations of file names and contents (current, legacy, GitLab, Bitbucket, malformed, mixed top-level keys), in the full and in the oss build",
  "No test covers the dispatch at all.",
  ["yaml/converter/convert.go", "yaml/converter/convert_oss.go", "yaml/converter/legacy/match.go"], [("dispatch", "yaml/converter/convert.go Convert"), ("legacy detection", "yaml/converter/legacy/match.go")])

# ---------------------------------------------------------------- determinism / concurrency / cli
p("C36", "The same input always produces the same output",
  "Parsing, formatting, linting, signing, converting and compiling are functions of their input: whatever the iteration order of hash tables, the same input gives byte-identical text (up to generated identifiers for compiled plans, and up to the order of the secret, volume and file lists of a plan, which carry no meaning). In particular two runs of a conversion never disagree about step order, pipeline numbering, selected pipeline or substituted values.",
  ["schedules", "inputs"], "every hash-table iteration start (all rotations globally and each single iteration site deviating) of every operation on configurations with multi-entry maps in every position",
  "Each test runs under whatever iteration order the runtime happens to pick; the order-dependent packages are excluded as flaky.",
  ["yaml/pretty", "yaml/compiler", "yaml/converter", "yaml/linter"], [("sorted map keys", "yaml/pretty/writer.go writeMapping, yaml/pretty/container.go")],
  hook="none in /repo: the Go runtime's map iterator start is overlaid at build time so that the check chooses it",
  technique="stateless model checking of map-iteration choices: every rotation and every single-site deviation, on the real code")

p("C37", "Operations are independent of each other, in sequence and in parallel",
  "The result of an operation depends only on its own arguments: not on which operations ran before it in the same process, and not on operations running at the same time on other inputs or on the same compiler. Concurrent use of the package-level functions, of one compiler value and of one policy or transform function on different plans is free of data races and gives the results of a sequential run.",
  ["schedules", "histories"], "all operation sequences up to length three; all statement-level interleavings of two operations with one (thorough: two) preemptions; a race-detected free-running pass",
  "No test runs two operations in one process concurrently or checks history independence.",
  ["yaml", "yaml/compiler", "yaml/compiler/transform", "yaml/pretty", "yaml/signer"], [("no package-level mutable state", "all packages")],
  hook="none in /repo: yield points are inserted into a build-time overlay of the sources",
  technique="stateless exploration of all bounded-preemption interleavings of the real code under a cooperative scheduler")

p("C38", "The tool changes a file only by replacing it with the complete result",
  "A tool command that fails exits non-zero and, unless writing the file itself failed, leaves its source file byte for byte unchanged; one that succeeds exits zero, and with --save replaces the file by exactly the result it would otherwise print, while without --save it never modifies it. Every history of format, convert, sign, verify and edit commands on a file leaves it in the state predicted by composing the library operations, and commands report success only if their result was actually written.",
  ["histories", "fault_sequences"], "all command histories up to the depth bound over reachable file contents with the real binary, with output faults (full device, closed output) injected at the end of each command",
  "The tool has no tests at all.",
  ["main.go"], [("command implementations", "main.go runFormat, runConvert, runSign, runVerify, runLint")],
  technique="explicit-state BFS over file contents, transitions executed by the real binary, compared with a library-level model")

p("C39", "The compile command feeds every option into the plan",
  "The compile command compiles the first pipeline, or the first with the requested name, and fails if there is none; every option (clone, labels, volumes, networks, variables, privileged images, event, repository, branch, ref, commit, cron, instance, target, secrets, registries, netrc credentials, git credentials, memory limit, proxy environment) has exactly its documented effect on the printed plan and none when absent, and options do not interfere with each other.",
  ["configurations", "inputs"], "every single option and every pair of options of the compile command, over manifests with zero to three pipelines, executed with the real binary against a model built from the library",
  "The tool has no tests at all.",
  ["main.go"], [("option wiring", "main.go runCompile")],
  technique="exhaustive single and pairwise option enumeration with the real binary against a reference model")

p("C40", "A manifest survives its own encodings",
  "For every manifest the parser can produce, encoding it as YAML and parsing the result, and encoding it as JSON and decoding the result, yield the same resources in the same order with the same value in every field; in JSON numbers are compared as numbers and the keys of nested settings by their text, and settings without a JSON form (infinities, not-a-number, keys of equal text) are excluded. The decoded manifest lints, formats and compiles as the original does. Encoding is repeatable, leaves the manifest unchanged, and a manifest of several documents is never marshalled as a single YAML document. JSON that is cut short, or in which a value does not fit its field, is refused.",
  ["inputs"], "every one- and two-field deviation of every resource kind, every special word in every string position, and all setting trees within the depth bound",
  "The tests encode one manifest with each encoder, and no settings with nested values.",
  ["yaml"], [("encoders and decoders", "yaml/manifest.go UnmarshalJSON, MarshalJSON, Encode, MarshalYAML; yaml/param.go; yaml/env.go")],
  technique="exhaustive bounded enumeration of manifests, each encoded and decoded by the real code and compared with the original")

p("C41", "A converted configuration can be used as it is",
  "The result of converting a well-formed legacy, GitLab or Bitbucket configuration (every container has an image, stages are not repeated, external secrets name a path, and no service is called clone) is accepted by the linter for a trusted repository, as a manifest and resource by resource, and every pipeline in it compiles to a plan with one step per step, service and clone, under their own names.",
  ["inputs", "configurations"], "the spaces of C31 to C34: pairwise (thorough: three-way) deviations of all fields, all assignments of jobs to stages, all matrices, all assignments of colliding names to steps, services and clone steps",
  "The golden files of the converters are never linted or compiled.",
  ["yaml/converter", "yaml/linter"], [("name assignment", "yaml/converter/legacy/internal/config.go, yaml/converter/gitlab/convert.go, yaml/converter/bitbucket/convert.go"), ("name rules", "yaml/linter/linter.go")],
  technique="exhaustive bounded enumeration of source configurations, each converted, linted and compiled by the real code")

p("C42", "The compiler's callbacks decide what they are asked and nothing else",
  "A transformation given to the compiler is called exactly once, with the finished plan (the one compiled without it), and what it makes of that plan is the result: nothing is changed afterwards. A skip policy and a privilege policy are asked about every step and service as declared and not about the clone step, and compared with the plan compiled without them exactly the containers they choose are never run, or privileged. Credentials given to the compiler add a file for the clone step and change nothing else, and nothing at all when they are empty or the clone step is disabled.",
  ["configurations", "inputs"], "every transformation of the library and several adversarial ones on every pipeline with up to one (thorough: two) deviations from the base; every set of skipped and privileged containers of a pipeline with five of them; every combination of build steps and images",
  "No test of the compiler gives it a transformation that looks at the plan, or policies that tell containers apart.",
  ["yaml/compiler/compiler.go", "yaml/compiler/clone.go"], [("order of the last compilation steps", "yaml/compiler/compiler.go Compile"), ("callback defaults", "yaml/compiler/compiler.go skip, privileged, gitCredentials")],
  technique="exhaustive bounded enumeration of pipelines and callbacks; each compiled plan compared with the plan compiled without the callback")
