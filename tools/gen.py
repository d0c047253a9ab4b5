#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="model_checking", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level, state=state or []))

STD = ("Exhaustive within the alphabets and depths recorded in the evidence, on the real code: every element of the product spaces is one execution "
       "decided by an independent reference model (integers in thousandths, structured ranges). Assumes the small-scope hypothesis beyond the bounds; "
       "comparisons that thousandths cannot decide are skipped and counted.")
HDR = ["internal/header/accept.go", "internal/header/media_range.go", "internal/header/accept_language.go", "internal/header/language_range.go",
       "internal/header/accept_charset.go", "internal/header/charset_range.go", "internal/header/accept_encoding.go", "internal/header/content_coding_range.go", "internal/header/quality_value.go"]

prop("P01", "Proactive negotiation serves exactly what the request accepts",
     "Whatever the Accept, Accept-Language, Accept-Charset and Accept-Encoding headers and the representations are, a proactive negotiation serves a representation only if each of its specified attributes (and every content coding applied to it) is acceptable with a quality above 0 by the most specific matching range, where a header that is absent or an attribute that is unspecified excludes nothing. If at least one such representation exists, one is served; if none exists the answer is 406 (Not Acceptable).",
     ["inputs", "configurations"], "every combination of negotiation headers and representation metadata",
     "Unit tests sample a few headers with mocked representations; acceptability depends on the interplay of ranges, wildcards, zero weights and missing attributes over all header lists.",
     HDR + ["proactive/apache_httpd.go", "proactive/proactive.go"],
     [("quality of each attribute", "proactive/apache_httpd.go"), ("range matching and specificity", "internal/header/*_range.go")],
     ["response status and body"],
     "bounded exhaustive enumeration of header lists x representations on the real negotiator against a reference model", STD)
prop("P02", "The best acceptable representation is served, in the documented order",
     "Among acceptable representations, proactive negotiation serves the one that is best by, in this order: source quality times media type quality, language quality, position of the matching range in Accept-Language, highest text/html level, charset quality, a charset other than ISO-8859-1, content coding quality, and smallest content length. When all of them tie the representation given first is served, so the outcome is a function of the request and the representations alone.",
     ["inputs", "configurations"], "every set of representations that differ in any combination of the criteria, in every order",
     "Tests check single criteria with one or two representations; the lexicographic precedence and stability have to hold for every combination and permutation.",
     ["proactive/apache_httpd.go", "proactive/filter.go", "representation/set.go", "representation/ranked.go"] + HDR,
     [("filter cascade", "proactive/apache_httpd.go"), ("stable sorting", "representation/set.go")], ["body of the response"],
     "bounded exhaustive enumeration of criteria vectors and permutations on the real negotiator against a lexicographic reference model", STD)
prop("P03", "Strict mode decides between 406 and disregarding a header",
     "With strict mode enabled for a header (Accept, Accept-Language or Accept-Charset, each configurable on its own), a request whose header no representation satisfies is answered with 406. With strict mode disabled for that header it is answered as if the header were absent, and in neither case does it change how the other headers are honoured.",
     ["inputs", "configurations"], "all strict mode configurations, all combinations of headers and representations",
     "Tests cover all-strict or none-strict configurations with mocked choosers; the property quantifies over the 8 configurations and every combination of satisfied and unsatisfied headers.",
     ["proactive/proactive.go", "proactive/proactive_options.go"] + HDR, [("strict mode checks", "proactive/proactive.go")], ["status and body of the response"],
     "exhaustive enumeration of configurations x header classes x representation sets on the real negotiator against a reference model", STD)
prop("P04", "A 406 response lists every representation in the format the client prefers",
     "A 406 response carries a list describing every offered representation completely and in order, in that configured list format that the negotiation headers of the request select by the same algorithm, or in the default format if they select none. When the body is disabled, the 406 response has no body.",
     ["inputs", "configurations"], "every request that accepts nothing, every number of representations, every list configuration",
     "Tests use one or two list formats and fixed headers, and never read the list back.",
     ["proactive/proactive.go", "proactive/proactive_options.go", "representation/list.go", "representation/base.go"], [("not acceptable response", "proactive/proactive.go")], ["status, Content-Type and body of the 406 response"],
     "exhaustive enumeration of requests x list configurations on the real negotiator, with an independent list decoder and format model", STD)
prop("P05", "Equivalent spellings of a header negotiate identically",
     "Distributing the elements of a negotiation header over one or several field lines, empty list elements, optional whitespace around separators, the case of case-insensitive names and the number of digits of a weight never change the outcome of a negotiation.",
     ["inputs"], "every spelling of every listed field value",
     "Tests pass headers in a single spelling each; the equivalence classes are products of independent spelling choices.",
     HDR + ["internal/header/field_value.go", "internal/header/negotiate.go", "internal/header/accept_features.go"], [("splitting of field values", "internal/header/field_value.go")], ["complete response"],
     "exhaustive enumeration of spellings on the real negotiators, differential against the plain spelling", STD)
prop("P06", "A response describes exactly the representation it carries",
     "Every response has exactly the content type, language, charset, content coding and (for a chosen representation) location of the representation that it carries, a Content-Length equal to the number of body bytes, and the status that the kind of negotiation demands (200, or 201 for a creation). This holds whatever metadata was already set on the response writer, and for representations whose serialization varies from call to call.",
     ["inputs", "configurations"], "every combination of metadata, sizes, pre-set headers and kinds of response",
     "Tests compare a few headers of single mocked responses.",
     ["proactive/proactive.go", "transparent/transparent.go", "reactive/reactive.go"], [("responses", "proactive/proactive.go, transparent/transparent.go, reactive/reactive.go")], ["status, header and body written to the response writer"],
     "exhaustive enumeration of metadata x responses on the real negotiators against a response model", STD)
prop("P07", "Failures leave either an untouched or a consistent response",
     "When serializing a representation, choosing or building a list fails at any point, the negotiation returns that error and nothing has been sent; when writing the body fails, the negotiation returns the error. A failure never surfaces as a panic, as a success, or as a response for another representation; a panic of a representation, chooser, list or writer is passed on or reported, never answered as if nothing had happened.",
     ["fault_sequences", "inputs"], "every single and pair of failing calls, every suffix of calls, every failing kind of call, in every scenario",
     "Tests inject one error at a time into a few paths; the property quantifies over all failure points and sequences of every negotiation.",
     ["proactive/proactive.go", "proactive/apache_httpd.go", "transparent/transparent.go", "reactive/reactive.go", "internal/header/alternates.go"], [("error returns ahead of the first write", "*/proactive.go, transparent.go, reactive.go")], ["returned error, calls of the response writer"],
     "exhaustive fault enumeration (all single, pairs, suffixes, kinds) over recorded call traces of the real negotiators against a response model",
     "Every call the negotiators make to representations, lists, choosers and the response writer is a failure point; exhaustive for the recorded scenarios up to pairs of failures (all subsets of the first calls when thorough).")
prop("P08", "Metrics count every negotiation exactly once, by outcome",
     "After any sequence of negotiations, each negotiator's counters (no content, not acceptable, acceptable, multiple choices, errors) equal the number of negotiations with that outcome, and the timer was recorded once per negotiation.",
     ["histories", "fault_sequences"], "every sequence of negotiations and failures up to the depth",
     "Tests check one counter after one negotiation; the property is about accumulated histories, including failing ones.",
     ["proactive/proactive.go", "transparent/transparent.go", "reactive/reactive.go"], [("deferred counters", "proactive/proactive.go, transparent/transparent.go, reactive/reactive.go")], ["tally scope snapshot"],
     "exhaustive enumeration of negotiation histories and failures on the real negotiators against a counter model", STD)
prop("P09", "Negotiation is total: never a panic, a hang, or a broken response",
     "For every sequence of bytes as the value of any negotiation header and for every representation metadata, each negotiator returns, without panicking, with either an error and nothing sent, or exactly one consistent response. Malformed weights (not a number, outside of 0 to 1) never take part in a negotiation.",
     ["inputs"], "every token sequence up to the depth in every header and metadata field, extreme numbers and URLs",
     "Tests list a handful of malformed values; totality quantifies over all strings.",
     HDR + ["internal/header/accept_features.go", "internal/header/feature_expression.go", "internal/header/feature_predicate.go", "internal/header/feature_list_element.go", "internal/header/negotiate.go", "proactive/proactive.go", "transparent/transparent.go", "transparent/rvsa.go"], [("parsers", "internal/header")], ["returned error, panics, response"],
     "bounded exhaustive enumeration of token strings on the real parsers and negotiators with a response protocol monitor", STD)
prop("P10", "Negotiations are independent of each other and leave their inputs alone",
     "The answer to a negotiation depends on its configuration, request and representations only: after any history of other negotiations, on the same, another or a default negotiator, it is the one that a fresh process gives. A negotiation never modifies the request, nor the representations or the slice that was passed.",
     ["histories", "inputs"], "every sequence of negotiations up to the depth",
     "Tests construct a fresh negotiator for every case, so state that leaks from one negotiation into the next is invisible.",
     ["proactive/proactive.go", "proactive/apache_httpd.go", "transparent/transparent.go", "transparent/rvsa.go", "reactive/reactive.go", "representation/set.go", "internal/header/feature_set.go", "internal/header/media_range.go"], [("absence of shared mutable state", "package level variables of every package")], ["responses, inputs afterwards"],
     "exhaustive enumeration of operation histories on the real code, golden answers from a fresh process", STD)
prop("P11", "Negotiations can share negotiators and representations concurrently",
     "Any number of negotiations may run at the same time on shared negotiators (including the default ones) with shared representations: in every interleaving each gets exactly the response that it gets when it runs alone, and nothing deadlocks or panics.",
     ["schedules"], "every interleaving of pairs of negotiations up to the preemption bound",
     "Tests are sequential; the effect of a shared variable only shows in particular interleavings.",
     ["proactive/proactive.go", "proactive/apache_httpd.go", "transparent/transparent.go", "transparent/rvsa.go", "reactive/reactive.go", "representation/base.go", "representation/set.go", "internal/header/*.go"], [("absence of shared mutable state", "package level variables, default negotiators")], ["responses of all negotiations"],
     "stateless model checking: controlled scheduler over statement-level yield points, all schedules up to the preemption bound",
     "Statement-granular interleavings (sequentially consistent) of pairs of negotiations on the real code, instrumented by a build overlay; exhaustive up to the preemption bound in the evidence. Finer than statement granularity (torn accesses, weak memory) is covered only by a supplementary run under the race detector when cgo is available.")
prop("L01", "Lists describe representations losslessly in every format",
     "A list of representations serialized as JSON, XML, YAML or HTML contains, for every representation and in order, exactly its content type, language, charset, codings, features, location and source quality, whatever characters they contain, and reading it back yields the same values.",
     ["inputs"], "every combination of metadata values, formats, numbers of representations",
     "Tests serialize one fixed list.",
     ["representation/list.go", "representation/base.go"], [("list metadata", "representation/list.go")], ["serialized list"],
     "exhaustive enumeration of metadata x formats on the real code, with an independent decoder", STD)
prop("O01", "Options configure exactly their instance, and the last value wins",
     "A negotiator behaves as the options it was constructed with demand: each option affects only its own setting, the last value of a setting wins whatever the order of other options, and constructing or using one negotiator never changes the configuration of another, nor of the default ones.",
     ["configurations", "histories"], "every sequence of options up to the depth, with every class of request",
     "Tests construct one negotiator per option.",
     ["proactive/proactive_options.go", "transparent/transparent_options.go", "reactive/reactive_options.go", "proactive/proactive.go", "transparent/transparent.go", "reactive/reactive.go"], [("options", "*/*_options.go")], ["responses of the configured instances"],
     "exhaustive enumeration of option sequences on the real constructors against a configuration model", STD)
prop("T01", "Transparent negotiation sends a choice only when allowed, otherwise the list",
     "A choice response is sent exactly if the Negotiate header allows the server to choose (`*`, `1.0` or `guess-small`), the selection algorithm chooses a variant that is a neighbor of the resource, and, under `guess-small`, the variant is not larger than the list by more than the threshold. In all other cases the response is the list response (300), and an error of the algorithm is returned with nothing sent.",
     ["inputs", "configurations"], "every sequence of directives, every outcome of the algorithm, every size around every threshold",
     "Tests cover a few single directives and sizes far from the threshold.",
     ["transparent/transparent.go", "transparent/transparent_options.go", "internal/header/negotiate.go", "internal/header/negotiate_directive.go", "internal/header/tcn.go"], [("decision between list and choice", "transparent/transparent.go")], ["status, TCN, Alternates and body"],
     "exhaustive enumeration of directives x algorithm outcomes x sizes on the real negotiator against a decision model", STD)
prop("T02", "Remote variant selection chooses the best variant, if it is definite",
     "The remote variant selection algorithm chooses the variant with the highest overall quality (product of source, type, charset, language and feature qualities, the first one on ties) if that is above 0 and depends on no wildcard and on no absent header for an attribute the variant specifies; otherwise it chooses nothing.",
     ["inputs"], "every combination of header lists, attribute values and source qualities",
     "Tests check a few variants with fixed headers.",
     ["transparent/rvsa.go"] + HDR, [("overall quality and definiteness", "transparent/rvsa.go")], ["chosen representation"],
     "bounded exhaustive enumeration of header lists x variants on the real algorithm against an integer reference model", STD)
prop("T03", "Feature predicates, bags and factors evaluate as RFC 2295 defines",
     "For every Accept-Features header and feature list, each predicate (existence, absence, equality, inequality, range), bag and pair of true-improvement and false-degradation factors contributes to the quality of a variant as RFC 2295 section 6 defines it, independent of the order and case of feature tags.",
     ["inputs"], "every set of feature expressions up to the depth, every predicate, bag, list and pair of factors",
     "Tests evaluate single predicates against small sets.",
     ["internal/header/accept_features.go", "internal/header/feature_expression.go", "internal/header/feature_list.go", "internal/header/feature_list_element.go", "internal/header/feature_predicate.go", "internal/header/feature_set.go", "internal/header/feature_tag.go", "transparent/rvsa.go"], [("predicates", "internal/header/feature_predicate.go")], ["chosen representation against graded competitors"],
     "bounded exhaustive enumeration of feature sets x feature lists on the real algorithm against a predicate model", STD)
prop("T04", "Alternates describes the complete variant list",
     "Every transparently negotiated list and choice response has an Alternates header that describes every variant in order with its exact location, source quality, type, charset, language, features and length; a list response also names the first variant as the fallback, a choice response names none.",
     ["inputs", "configurations"], "every combination of metadata values, every number of variants, list and choice responses",
     "Tests compare one rendered header.",
     ["internal/header/alternates.go", "transparent/transparent.go"], [("Alternates header", "internal/header/alternates.go")], ["Alternates header of the response"],
     "exhaustive enumeration of variant lists on the real negotiator, with an independent RFC 2295 parser", STD)
prop("T05", "Only neighboring variants are sent as a choice",
     "A choice response is sent only if the variant's location and the resource have the same scheme, host, port (taking the default of the scheme) and the same path up to its last slash, comparing percent-encodings by value; query and fragment are irrelevant. Every such variant counts as a neighbor, otherwise the list is sent.",
     ["inputs"], "every pair of URLs of the alphabet",
     "Tests try a handful of URL pairs; the relation is over pairs of URLs with several equivalent spellings. It prevents one resource from spoofing another one.",
     ["transparent/transparent.go"], [("isNeighbor, sameURL", "transparent/transparent.go")], ["status of the response"],
     "exhaustive enumeration of URL pairs on the real negotiator against a canonicalization model", STD)
prop("T06", "The variant list bound is enforced before anything is sent",
     "A transparent negotiation with more variants than the configured maximum (10 by default, never below 1) returns the size error and sends nothing; with up to the maximum it never does, and with no variants the answer is 204.",
     ["inputs", "configurations"], "every number of variants against every maximum",
     "Tests try one number above one maximum.",
     ["transparent/transparent.go", "transparent/transparent_options.go"], [("maximum", "transparent/transparent.go")], ["returned error and response"],
     "exhaustive enumeration of sizes x limits x requests on the real negotiator", STD)
prop("R01", "Reactive negotiation always lists all representations",
     "A reactive negotiation answers every request, whatever its headers, with 300 (Multiple Choices) and the complete list of representations in order, in the configured format, or with 204 when there are none.",
     ["inputs", "configurations"], "every request class, format, number and metadata of representations",
     "Tests negotiate one mocked list.",
     ["reactive/reactive.go", "reactive/reactive_options.go", "representation/list.go"], [("Negotiate", "reactive/reactive.go")], ["response"],
     "exhaustive enumeration of requests x representations on the real negotiator, with an independent list decoder", STD)
prop("S01", "Serialization round-trips through every type and coding sequence",
     "For every supported content type and every sequence of supported content codings, reading the serialized form of a representation yields an equal representation, and neither direction modifies its input.",
     ["inputs", "configurations"], "every document of the alphabet, every sequence of codings up to the depth",
     "Tests round-trip one document through single codings.",
     ["representation/base.go", "representation/reader_constructor.go", "representation/writer_constructor.go", "representation/list.go"], [("encode, decode", "representation/base.go")], ["Bytes and FromBytes"],
     "exhaustive enumeration of types x coding sequences x documents on the real code", STD)
prop("S02", "Content codings are applied in the order they are listed",
     "The serialized form of a representation is its plain serialization with the listed content codings applied first to last (gzip, zlib for compress, raw deflate, identity changing nothing), complete and self-contained, so that any conforming decoder that removes them last to first gets the content; the library reads such content from any conforming encoder.",
     ["inputs", "configurations"], "every sequence of codings up to the depth, both directions",
     "Tests use single codings, for which order and completeness of nested streams do not show.",
     ["representation/base.go", "representation/reader_constructor.go", "representation/writer_constructor.go"], [("encode, decode", "representation/base.go")], ["serialized bytes"],
     "exhaustive enumeration of coding sequences on the real code, differential against the standard library applied step by step", STD)
prop("S03", "Damaged or unsupported content is an error, never wrong data",
     "Reading a serialized form that was truncated at any point fails, and reading one with any single flipped bit under a checksummed outermost coding fails or yields the original, never another value. Text that was altered is an error or data exactly as the format of the content type defines; nothing in it is skipped, repaired or normalised. Unsupported content types and codings, at any position, are reported as such both ways.",
     ["fault_sequences", "inputs"], "every truncation point and every bit of the serialized forms, every position of an unsupported name",
     "Tests read intact or trivially invalid bytes only.",
     ["representation/base.go", "representation/reader_constructor.go"], [("decode", "representation/base.go")], ["error and value of FromBytes"],
     "exhaustive enumeration of truncations and single bit flips on the real decoder", STD)
prop("S04", "Custom codecs and metadata belong to their representation",
     "Custom marshallers, unmarshallers and content codecs replace the default ones of that representation only, whatever the order in which they and the metadata are set, and emptying them restores the defaults; every metadata value reads back as it was last set.",
     ["histories", "configurations"], "every sequence of configuration steps of two instances up to the depth",
     "Tests set one table on one instance.",
     ["representation/base.go"], [("tables", "representation/base.go")], ["Bytes, FromBytes and getters"],
     "exhaustive enumeration of configuration histories of two instances on the real code against a table model", STD)
prop("S05", "Failures of codecs are reported, and codecs are finished properly",
     "If a marshaller or any constructor, read, write or close of a content codec fails at any point, serializing or reading returns that error; without failure every codec is closed exactly once, inner ones first, so that no trailer is lost.",
     ["fault_sequences"], "every failing call and pair of calls in every stack of codecs up to the depth",
     "Tests let a constructor fail in a single-coding stack.",
     ["representation/base.go"], [("encode, decode", "representation/base.go")], ["error and bytes"],
     "exhaustive fault enumeration over custom codec stacks on the real code", STD)

prop("C01", "The selection algorithms choose rationally and return what was given",
     "The exported selection algorithms (ApacheHTTPD, RVSA1), called with any request and representations, return one of the given representations itself or nothing, leave the given slice as it is, and repeat their choice when called again. A choice from several representations is decided by their pairwise preference, ties going to the one given first, so that adding or removing representations that are not chosen never changes it, and ApacheHTTPD chooses nothing only if it refuses each representation alone. The negotiators serve exactly this choice.",
     ["inputs"], "every sequence of representations up to the depth, every request of the alphabet, including values whose order is documented nowhere",
     "Tests call the algorithms with one or two mocked representations and compare with one expected choice; consistency relates the choices of all subsets and orders.",
     ["proactive/apache_httpd.go", "transparent/rvsa.go", "representation/set.go", "representation/ranked.go", "internal/header/quality_value.go"], [("Choose", "proactive/apache_httpd.go, transparent/rvsa.go"), ("stable sorting and filtering", "representation/set.go")], ["result of Choose, response of the negotiators"],
     "exhaustive enumeration of sequences of representations on the real algorithms against the preference relation that they reveal for singletons and pairs", STD)
prop("M01", "Logs tell of every response exactly what was sent, and change nothing",
     "With any logger, at any level, and any metric scope a negotiation gives the same response and the same error as without, after the same calls of its environment. At the info level, every completely sent response is logged exactly once, with its actual status, content length, type, language, charset, coding, location, Alternates and TCN as far as it has them, and a negotiation that fails logs no response.",
     ["fault_sequences", "inputs"], "every scenario with every failure, every level, every combination of metadata",
     "Tests negotiate with a no-op logger and never read a record.",
     ["proactive/proactive.go", "transparent/transparent.go", "reactive/reactive.go", "proactive/proactive_options.go", "transparent/transparent_options.go", "reactive/reactive_options.go"], [("records at info level", "proactive/proactive.go, transparent/transparent.go, reactive/reactive.go")], ["records of the zap core"],
     "exhaustive enumeration of scenarios x failures x levels x metadata on the real negotiators, differential against the silent negotiation and the response", STD)
prop("I01", "Nothing but the negotiation headers, the resource and the configuration decides",
     "The answer to a negotiation depends only on the request headers that its kind of negotiation considers (Accept, Accept-Language, Accept-Charset and Accept-Encoding for proactive, Negotiate, Accept, Accept-Language, Accept-Charset and Accept-Features for transparent, none for reactive negotiation), on the representations, on the configuration, on whether a proactive negotiation is a creation, and in transparent negotiation on the scheme, host, port and path of the resource. The method, protocol version, body, context and every other header of the request never change it, nor does the kind of response writer; the request body is never read, and unrelated response headers survive. A client of a real HTTP server receives exactly this answer.",
     ["inputs", "histories"], "every scenario with every change to the other parts of the request and response, alone and in pairs; every scenario and pair of scenarios over real connections",
     "Tests use GET requests with the headers under test and a recorder; absence of influence is a statement about all other inputs.",
     ["proactive/proactive.go", "transparent/transparent.go", "reactive/reactive.go", "proactive/apache_httpd.go", "transparent/rvsa.go", "negotiator.go"], [("Negotiate", "proactive/proactive.go, transparent/transparent.go, reactive/reactive.go")], ["response, returned error, request body, connection"],
     "exhaustive enumeration of scenarios x changes on the real negotiators, differential against the unchanged negotiation, and conformance of the recording response writer with a real HTTP server", STD)

ORDER = os.environ.get("ONLY", "").split(",") if os.environ.get("ONLY") else None
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
skip = os.environ.get("SKIP", "").split(",")
man = dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                 evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["id"] not in skip],
    not_applicable=[dict(property=s, reason="under construction") for s in skip if s],
    notes="No hooks in /repo: the checks import /repo's packages as they are (module replace); P11 instruments copies of the sources through a build overlay. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 3, p["id"]
