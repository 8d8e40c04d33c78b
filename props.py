"""The properties, where they live, and which functions and rules decide each of them."""

I, CFGS, H, F, S, CP, PR = "inputs", "configurations", "histories", "fault_sequences", "schedules", "crash_points", "programs"


def P(id, title, statement, over, qtext, why, scope, mech, rules=(), exclude=(), note="", also=()):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, scope=scope, mech=mech,
                rules=list(rules), exclude=list(exclude), note=note, also=list(also))


PROPS = [
    P("C01", "Exit status and rendered diagnostics tell the truth",
      "A command that ends with at least one error-severity diagnostic, or whose failure cannot be rendered, exits with a non-zero status, and one that ends without any does not fail. "
      "Every diagnostic handed over by a command is kept and rendered; only warnings and advice are treated as non-errors, and future mode turns those deferred severities into errors.",
      [I, CFGS], "every diagnostic set a command can end with, every severity mix, both future-mode settings, every output format",
      "Tests look at a handful of commands on fixed registries; they never vary severities, format failures and future mode together.",
      [r"^src/main\.rs", r"^src/diagnostic/", r"^crates/weaver_common/src/(diagnostic|result|error)\.rs"],
      [("process_diagnostics / run_command", "src/main.rs"), ("has_error, handling of collected results", "crates/weaver_common/src/diagnostic.rs"),
       ("combinators over results with non-fatal errors", "crates/weaver_common/src/result.rs")]),
    P("C02", "No reported problem is lost on its way to the outcome",
      "Every error, warning or policy finding produced while loading, resolving, checking or generating is propagated to the diagnostics of the command that triggered it. "
      "No layer silently discards a failed operation or the non-fatal problems that accompany a success, apart from a fixed list of documented best-effort operations.",
      [I, F], "every failing operation, in every layer, on every input",
      "Each test provokes one failure; whether some other call site drops its result is a question about all call sites.",
      [r"^src/weaver\.rs", r"^src/registry/mod\.rs"],
      [("engine facade that threads diagnostics", "src/weaver.rs"), ("every call site returning a Result or WResult", "crates/*, src/*")],
      rules=["discard"],
      also=[r"^weaver_common::result::", r"^weaver_common::diagnostic::DiagnosticMessages::(extend|from_err|new|into)", r"diagnostic::ResultExt", r"^weaver_resolver::loader::(load_|from_vdir)", r"^weaver_resolver::WeaverResolver::"]),
    P("C03", "A command succeeds only after its loading, resolution and policy checks",
      "Every registry command loads and resolves the registry it was given, with the options it was given, before it reports success; check, resolve and generate also evaluate the after-resolution policies, and check the comparison with a given baseline. "
      "When any of these steps reports a problem the command returns it instead of a success.",
      [I, CFGS], "every registry, every option combination of every registry command",
      "Command tests run the success path on small registries; the guard of each success exit is not observable from one run.",
      [r"^src/registry/(check|generate|resolve|stats|diff|json_schema|mcp|emit|search)\.rs"],
      [("command entry points", "src/registry/*.rs"), ("policy evaluation", "src/weaver.rs")],
      rules=[], exclude=[r"^weaver::registry::search::(?!command)"],
      also=[r"^<?weaver::weaver::", r"^weaver::registry::(load_config|resolve_weaver_config|semconv_registry)$"]),
    P("C04", "Packaging writes nothing unless the registry is fit to publish",
      "The package command writes its artefacts only after the registry was resolved as version 2, has a definition manifest, passed every policy and carries no error. "
      "The two files written are the resolved schema and a publication manifest which carries every identity field of the definition manifest and the requested artefact location.",
      [I, CFGS, F], "every registry, manifest and policy outcome",
      "Tests package good registries and a few bad ones; they do not show that no path reaches a write with an error pending.",
      [r"^src/registry/package\.rs"],
      [("command", "src/registry/package.rs"), ("publication manifest", "crates/weaver_semconv/src/manifest.rs")], rules=[],
      also=[r"^weaver_semconv::manifest::(Publication|RegistryManifest::)", r"weaver::weaver::(ResolvedV2|Resolved|check_policy\w*)\b"]),
    P("C05", "Policies are all evaluated and their findings all reported",
      "Every policy file and every data document given to the policy engine is loaded or reported as an error, each requested stage is evaluated against exactly the input it was given, and every finding in the result is returned with its identity, level, message, context and signal. "
      "A malformed finding or an evaluation failure is an error, never an empty result.",
      [I, CFGS, PR], "every policy set, every input document, every stage",
      "Tests use a few small policies; dropping a finding field, a stage or a file is invisible to them unless it is the one sampled.",
      [r"^crates/weaver_checker/src/"],
      [("policy engine", "crates/weaver_checker/src/lib.rs"), ("finding decoding and levels", "crates/weaver_checker/src/finding.rs")],
      also=[r"weaver::weaver::(.*polic|PolicyVisitor)"]),
    P("C06", "Fetched registries stay inside their temporary directory while in use",
      "Whatever an archive or a repository contains, unpacking it creates files only below the temporary directory made for it, and a requested sub-folder never resolves outside it. "
      "The temporary directory exists as long as the registry view that refers to it, and each supported source kind is recognised and fetched as what it is.",
      [I], "every archive content, every sub-folder argument, every source string",
      "Tests unpack a few well-formed archives; hostile entry names and lifetimes under every use are not sampled.",
      [r"^crates/weaver_common/src/vdir\.rs", r"^crates/weaver_common/src/lib\.rs"],
      [("virtual directories", "crates/weaver_common/src/vdir.rs")], rules=[],
      exclude=[r"attach_auth|git_credentials|normalize_github|parse_github|find_asset"]),
    P("C07", "Credentials are sent only where they were configured to go",
      "A credential is attached to a request only when the most specific configured prefix matches the requested address, is taken from exactly the configured source, and is never forwarded to another host on redirect. "
      "Git operations do not use the user's credentials unless that was explicitly enabled.",
      [I, CFGS], "every configured rule set, every address, every redirect",
      "Tests cover a few prefixes; the absence of other flows of the secret cannot be sampled.",
      [r"^crates/weaver_common/src/http_auth\.rs", r"^crates/weaver_config/src/auth\.rs", r"^crates/weaver_common/src/vdir\.rs"],
      [("rule matching and token sources", "crates/weaver_common/src/http_auth.rs"), ("configuration", "crates/weaver_config/src/auth.rs"),
       ("downloads and clones", "crates/weaver_common/src/vdir.rs")], rules=[],
      exclude=[r"VirtualDirectoryPath|create_parent|create_tmp|path_to_unpack|local_archive|unpack_|vdir_path|try_new|::path$|map_option"]),
    P("C08", "The dependency graph is loaded completely and its conflicts are reported",
      "Every dependency declared in a manifest is loaded, or its absence is an error; circular dependencies, chains beyond the depth limit and irreconcilable versions of the same registry are errors, and a version substituted for a requested one is reported. "
      "Problems found while loading a dependency are reported with those of the main registry.",
      [I, F], "every dependency graph, every manifest, every cached registry",
      "Tests build a few small graphs; cycle, depth and version handling must hold for all shapes.",
      [r"^crates/weaver_resolver/src/(loader|conflict_strategy)\.rs"],
      [("recursive loader", "crates/weaver_resolver/src/loader.rs"), ("version conflict strategy", "crates/weaver_resolver/src/conflict_strategy.rs")],
      also=[r"^<?weaver_resolver::WeaverResolver::(load|resolve_(dep|schema)|add)"]),
    P("C09", "Manifests and schema URLs are parsed strictly and identify a registry faithfully",
      "A registry's name, version, schema URL and dependencies come from its manifest exactly as written; missing, contradictory or deprecated manifest content is reported. "
      "A publication manifest repeats its definition's identity, and a schema URL splits into name and version in one way only.",
      [I], "every manifest file and every schema URL string",
      "Tests parse sample manifests; rejection and mapping rules quantify over all of them.",
      [r"^crates/weaver_semconv/src/(manifest|registry_repo|schema_url|provenance)\.rs"],
      [("manifests", "crates/weaver_semconv/src/manifest.rs"), ("repositories", "crates/weaver_semconv/src/registry_repo.rs"),
       ("schema URLs", "crates/weaver_semconv/src/schema_url.rs")]),
    P("C10", "Every definition file is validated on load and each rule fires when it must",
      "Whatever way a definition file is loaded, its format is detected, its content validated and every violated rule reported: each reported problem depends on exactly the fields its rule names, and no other condition suppresses it. "
      "No file of a registry is skipped.",
      [I], "every definition file, every combination of fields",
      "Each rule has one or two sample files; what must not influence a rule cannot be sampled.",
      [r"^crates/weaver_semconv/src/(semconv|registry|group|attribute|any_value|deprecated|stability|json_schema|lib|entity_association|signal_requirement_level)\.rs", r"^crates/weaver_common/src/ordered_float\.rs"],
      [("format detection and validation on load", "crates/weaver_semconv/src/semconv.rs"), ("group rules", "crates/weaver_semconv/src/group.rs"),
       ("attribute rules", "crates/weaver_semconv/src/attribute.rs")]),
    P("C11", "Version 2 definitions are carried over without loss",
      "Every field of every version 2 definition, whether attribute, attribute group, span, metric, event, entity, refinement or import, reaches its counterpart in the internal form, and nothing from one definition leaks into another. "
      "The rules specific to version 2 files are enforced as for version 1 files.",
      [I], "every version 2 definition file",
      "Conversion tests compare a few samples; a field dropped under some condition shows only for inputs using it.",
      [r"^crates/weaver_semconv/src/v2/"],
      [("conversions", "crates/weaver_semconv/src/v2/*.rs")]),
    P("C12", "References resolve or are reported, and identifiers are unique",
      "After resolution no reference, extension or inclusion is left unresolved without an error, every group and attribute keeps its origin, and duplicate group identifiers, attribute definitions, metric, event, span or entity names are reported. "
      "Resolution covers every group of the registry and of its dependencies.",
      [I], "every registry, including those whose references chain or fail",
      "Fixtures exercise particular chains; completeness over all groups and all failing references is universal.",
      [r"^crates/weaver_resolver/src/(registry|lib|error)\.rs", r"^crates/weaver_resolved_schema/src/(registry|error|attribute|value)\.rs"],
      [("resolution fixpoints and uniqueness checks", "crates/weaver_resolver/src/registry.rs"), ("driver", "crates/weaver_resolver/src/lib.rs")],
      also=[r"^<?weaver_resolver::dependency::", r"dependency::(EntityLookup|GroupRefinementLookup)"]),
    P("C13", "Inheritance and overrides follow one precedence",
      "A locally stated property of an attribute or group always wins over the inherited one, an unstated one is inherited unchanged, and the recorded lineage says which happened. "
      "Merging never mixes properties of different attributes, and the catalogue keeps exactly the attributes in use.",
      [I], "every inheritance chain and every combination of overridden fields",
      "Tests override a few fields; the rule is per field and per chain.",
      [r"^crates/weaver_resolver/src/(attribute|merge)\.rs", r"^crates/weaver_resolved_schema/src/(lineage|catalog)\.rs"],
      [("attribute resolution", "crates/weaver_resolver/src/attribute.rs"), ("lineage", "crates/weaver_resolved_schema/src/lineage.rs"),
       ("catalogue", "crates/weaver_resolved_schema/src/catalog.rs")]),
    P("C14", "Imports bring in what they select, and hidden items stay hidden",
      "An import brings every matching visible signal or group of a dependency into the importing registry with all its properties, for every signal kind and both schema versions, and reports imports that match nothing or are ambiguous. "
      "Items a dependency marks private or excluded are never usable by a dependent.",
      [I], "every import list, every dependency content, both schema versions",
      "Tests import a few signals; per-kind and per-version symmetry is not sampled.",
      [r"^crates/weaver_resolver/src/(imports|dependency|dependency_resolution)\.rs"],
      [("imports", "crates/weaver_resolver/src/imports.rs"), ("lookups in dependencies", "crates/weaver_resolver/src/dependency.rs"),
       ("exclusion", "crates/weaver_resolver/src/dependency_resolution.rs")],
      also=[r"^weaver_resolver::registry::(resolve_dependency_imports|lookup_group_with_dependencies|excluded_parent_error)$"]),
    P("C15", "Conversion of a resolved registry to version 2 is complete and consistent",
      "Every attribute, public attribute group, span, metric, event, entity and refinement of a resolved registry appears in its version 2 form with all its fields, and every reference in that form designates the item it designated before. "
      "Conversion never invents or merges items, and its result is ordered deterministically.",
      [I], "every resolved registry",
      "Tests convert a few registries; field and reference completeness holds per item kind.",
      [r"^crates/weaver_resolved_schema/src/v2/(attribute|attribute_group|catalog|entity|event|metric|provenance|refinements|span|registry)\.rs",
       r"^crates/weaver_resolved_schema/src/v2/mod\.rs"],
      [("conversion", "crates/weaver_resolved_schema/src/v2/mod.rs"), ("catalogue", "crates/weaver_resolved_schema/src/v2/catalog.rs")],
      exclude=[r"diff"]),
    P("C16", "A diff reports every change between two registries, as what it is",
      "Comparing two registries reports each added, renamed, obsoleted, deprecated, updated or removed attribute, metric, event, span and entity exactly once and in its own category, and nothing for unchanged items. "
      "Version tables derived from schema files apply every listed change.",
      [I], "every pair of registries",
      "Tests diff a few pairs; the classification is a table over all kinds and states.",
      [r"^crates/weaver_resolved_schema/src/lib\.rs", r"^crates/weaver_resolved_schema/src/v2/mod\.rs", r"^crates/weaver_version/src/"],
      [("version 1 diff", "crates/weaver_resolved_schema/src/lib.rs"), ("version 2 diff", "crates/weaver_resolved_schema/src/v2/mod.rs"),
       ("change model", "crates/weaver_version/src")],
      exclude=[r"^<?weaver_resolved_schema::v2::(?!.*diff)", r"TryFrom"],
      also=[r"^weaver::weaver::(Diff|.*::diff$)", r"^weaver::registry::diff::"]),
    P("C17", "Templates see the whole resolved registry",
      "The view handed to templates, policies and snippets contains every group, attribute and signal of the resolved registry with every field, for both schema versions, and each attribute reference is expanded to the attribute it designates. "
      "A dangling reference is an error, not an omission.",
      [I], "every resolved registry",
      "Templates in tests read a few fields; an omitted field is invisible unless read.",
      [r"^crates/weaver_forge/src/registry\.rs", r"^crates/weaver_forge/src/v2/"],
      [("version 1 view", "crates/weaver_forge/src/registry.rs"), ("version 2 view", "crates/weaver_forge/src/v2")],
      also=[r"^weaver_semconv_gen::v2::(resolved_|lookup)"]),
    P("C18", "Generation applies every matching template and hides no failure",
      "Every template entry whose pattern matches a file and whose condition holds is applied to exactly the objects its filter yields, and each result is written below the output directory under the computed name. "
      "A failing template, filter, condition or write is reported and makes generation fail, and templates can only load files below the template root.",
      [I, CFGS, PR, F], "every template set, configuration, registry and file name expression",
      "Tests render fixed templates; error propagation and containment are about all of them.",
      [r"^crates/weaver_forge/src/(lib|output_processor|file_loader|debug|error)\.rs", r"^crates/weaver_otel_schema/", r"^crates/weaver_diff/src/"],
      [("template engine", "crates/weaver_forge/src/lib.rs"), ("output", "crates/weaver_forge/src/output_processor.rs"),
       ("loaders", "crates/weaver_forge/src/file_loader.rs")], rules=[]),
    P("C19", "Template configuration merges predictably and filters see their parameters",
      "Configuration from several levels is merged so that the most specific file wins setting by setting, and parameters given on the command line win over configured ones. "
      "Filter expressions run against the full context with every parameter bound, and a compile or runtime failure of the expression is an error.",
      [CFGS, I, PR], "every combination of configuration files, parameters and filter expressions",
      "Tests merge a few files; precedence is per setting.",
      [r"^crates/weaver_forge/src/(config|jq|filter)\.rs"],
      [("configuration", "crates/weaver_forge/src/config.rs"), ("filters", "crates/weaver_forge/src/jq.rs")]),
    P("C20", "Template filters, tests and formatting treat every kind of item alike",
      "Each predefined filter, test and function considers exactly the fields of the item it documents, for every variant of attribute type, requirement level, stability and deprecation, and reports an argument it cannot handle. "
      "Comment and code formatting keep the whole text and honour the configured options.",
      [I, CFGS], "every item and every format configuration",
      "Tests call each filter on a few values; variant coverage is universal.",
      [r"^crates/weaver_forge/src/extensions/", r"^crates/weaver_forge/src/formats/"],
      [("filters and tests", "crates/weaver_forge/src/extensions"), ("comment formatting", "crates/weaver_forge/src/formats")]),
    P("C21", "Configuration is layered defaults, project file, command line",
      "For every setting the value given on the command line wins over the one in the project configuration file, which wins over the built-in default, independently of all other settings. "
      "A configuration file that is found but cannot be read or parsed is an error, and the nearest one in the directory hierarchy is used.",
      [CFGS], "every combination of defaults, configuration files and arguments, for every setting",
      "Tests check a few settings; precedence is per setting and per command.",
      [r"^crates/weaver_config/src/(lib|effective|overrides|live_check)\.rs"],
      [("discovery and loading", "crates/weaver_config/src/lib.rs"), ("layering", "crates/weaver_config/src/effective.rs"),
       ("overrides", "crates/weaver_config/src/overrides.rs")],
      also=[r"^weaver::registry::(load_config|apply_template_config|auth_resolver_from_config|resolve_weaver_config|semconv_registry)$"]),
    P("C22", "Live check examines every sample and every nested element",
      "Each received resource, scope, span, span event, span link, metric, data point, exemplar, log record, profile and attribute is matched with its registry definition, submitted to every advisor and counted. "
      "Findings of nested elements are attached to the element that caused them, and lookups find an item whichever way it is registered.",
      [I, H], "every telemetry stream and registry",
      "Tests send particular samples; coverage must hold for every nesting and kind.",
      [r"^crates/weaver_live_check/src/(lib|live_checker|sample_[a-z_]+)\.rs", r"^crates/weaver_live_check/src/generated/"],
      [("traversal", "crates/weaver_live_check/src/sample_*.rs"), ("indexes", "crates/weaver_live_check/src/live_checker.rs")]),
    P("C23", "Each advisor reports exactly what its rule says, with the severity it says",
      "Every built-in advisor raises its finding for every sample kind it covers exactly when the documented condition on the sample and its definition holds, with the documented identity and level. "
      "Findings of custom policies are passed on unchanged.",
      [I], "every sample and definition",
      "Tests sample each finding a few times; an extra suppressing condition is not sampled.",
      [r"^crates/weaver_live_check/src/advice/"],
      [("advisors", "crates/weaver_live_check/src/advice/*.rs")]),
    P("C24", "Findings are filtered, counted and turned into the exit status faithfully",
      "A finding is dropped or relevelled only by a configured rule that matches it, every remaining one is counted once and reported, and the run fails exactly when a remaining finding reaches the configured threshold. "
      "Coverage figures count every registry item and every item seen.",
      [H, CFGS], "every finding stream and every filter, override and threshold configuration",
      "Tests use short streams and few rules.",
      [r"^crates/weaver_live_check/src/(finding_modifier|stats|otlp_logger)\.rs", r"^src/registry/live_check\.rs"],
      [("rules", "crates/weaver_live_check/src/finding_modifier.rs"), ("statistics", "crates/weaver_live_check/src/stats.rs"),
       ("command", "src/registry/live_check.rs")],
      also=[r"^weaver_mcp::service::(extract|push|collect|WeaverMcpService::(live_check|create_live_checker)$)"]),
    P("C25", "Received telemetry reaches the checks unaltered and complete",
      "Every record accepted from OTLP, JSON or text input becomes one sample with all its fields, in order of arrival, and every nested record of a batch is delivered. "
      "Input that cannot be read is reported.",
      [I, H], "every OTLP message, JSON document and text line",
      "Tests convert a few messages; completeness is per field and per record kind.",
      [r"^crates/weaver_live_check/src/(json|text)_\w+\.rs", r"^src/registry/otlp/(conversion|otlp_ingester)\.rs"],
      [("OTLP conversion", "src/registry/otlp/conversion.rs"), ("ingestion", "src/registry/otlp/otlp_ingester.rs"),
       ("file and stdin readers", "crates/weaver_live_check/src/*_ingester.rs")]),
    P("C26", "The OTLP listener forwards every signal kind and stops for a reported reason",
      "Every export request of every signal kind is forwarded to the consumer and acknowledged only if it was, and the listener stops on interrupt, administrative request or inactivity with the matching reason. "
      "A listener that cannot start is an error.",
      [S, H, F], "every interleaving of requests and stop conditions",
      "Tests start and stop one listener; schedules are not explored.",
      [r"^src/registry/otlp/mod\.rs"],
      [("listener", "src/registry/otlp/mod.rs")]),
    P("C27", "Inference describes every observed signal",
      "Inferring a registry from telemetry yields a definition for every distinct span, span event, metric with a known instrument, log event and attribute observed, with the kind, unit, instrument and type first observed under its name. "
      "Later observations of the same name are merged into it, attributes and examples included, never lost.",
      [H, I], "every telemetry stream",
      "Tests infer from a few samples.",
      [r"^crates/weaver_infer/src/", r"^src/registry/infer\.rs"],
      [("accumulation and generation", "crates/weaver_infer/src/lib.rs"), ("command", "src/registry/infer.rs")],
      also=[r"^weaver::registry::otlp::conversion::.*(metric|span|log|attribute|kind|instrument)"]),
    P("C28", "Emission produces every signal of the registry with all its attributes",
      "Emitting a registry produces one telemetry item per span, metric and event it defines, with the defined kind, unit, instrument and every attribute, each with a value of its declared type. "
      "A failing exporter is reported.",
      [I], "every resolved registry",
      "Tests emit a small registry to stdout.",
      [r"^crates/weaver_emit/src/"],
      [("emission", "crates/weaver_emit/src")]),
    P("C29", "Markdown updates touch only the generated sections and never in dry-run mode",
      "Updating documentation replaces exactly the text between the markers of each generated section with the rendered snippet, keeps every other line, and writes nothing in dry-run mode. "
      "An unterminated or malformed section, an unreadable file or a pending difference in dry-run mode is an error.",
      [I, CFGS], "every markdown file and every option combination",
      "Tests update a few documents; absence of writes and of other edits is universal.",
      [r"^crates/weaver_semconv_gen/src/", r"^src/registry/update_markdown\.rs"],
      [("snippet parsing and replacement", "crates/weaver_semconv_gen/src"), ("command", "src/registry/update_markdown.rs")],
      rules=[]),
    P("C30", "Server, MCP and search answer from the whole registry and report errors",
      "Every lookup, listing and search served over HTTP, MCP or the terminal considers every item of the loaded registry of the requested kind, returns its actual content, and honours the given query, filter and paging arguments. "
      "An unknown item or invalid request is answered with an error, never with another item.",
      [I, H], "every request and registry",
      "Tests issue a few requests.",
      [r"^src/serve/", r"^crates/weaver_mcp/src/", r"^crates/weaver_search/src/", r"^src/registry/search\.rs"],
      [("HTTP handlers", "src/serve/handlers.rs"), ("MCP tools", "crates/weaver_mcp/src/service.rs"), ("search", "crates/weaver_search/src/lib.rs")]),
]

NA = [
    P("N01", "Resolution and loading terminate on every registry",
      "Loading and resolving end on every registry, whatever its references, extensions and dependencies look like.",
      [I], "every registry, including adversarial ones", "A test shows termination for one registry only.",
      [], [("resolution fixpoints", "crates/weaver_resolver/src/registry.rs")],
      note="The fixpoint loops stop when a round makes no progress; that a round makes only finitely often progress is a ranking argument over "
           "runtime collections which no sound static argument in reach can bound. (That unresolved leftovers are reported is C12; the depth limit is C08.)"),
    P("N02", "The telemetry listener never deadlocks or loses a wake-up",
      "Under every schedule of requests, stop conditions and consumers the listener makes progress and delivers what it accepted before it ends.",
      [S], "every interleaving", "Tests see one schedule.",
      [], [("listener and channels", "src/registry/otlp/mod.rs")],
      note="Progress depends on the semantics of tokio's channels, select and tonic's server, which are outside the analysed source; a lock-order analysis "
           "is vacuous here (no two locks are held together). What is forwarded and acknowledged is decided by C26."),
    P("N03", "Rendered text is exact to the character",
      "Comments, markdown and template output are laid out exactly as documented for every text.",
      [I, CFGS], "every text and option", "Tests render samples.",
      [], [("comment formatting", "crates/weaver_forge/src/formats")],
      note="The layout is computed by external engines (minijinja, markdown, textwrap) from runtime strings; statically only what it depends on can be decided (C18, C20)."),
    P("N04", "Search results are ordered by relevance",
      "For every query a better match is never listed after a worse one.",
      [I], "every query and registry", "Tests compare a few scores.",
      [], [("scoring", "crates/weaver_search/src/lib.rs")],
      note="The order results from numeric scores over runtime strings; a static argument about their relative size for all strings is out of reach. "
           "That every item takes part and filters and paging are honoured is C30."),
]
