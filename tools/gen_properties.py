#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
ED = "editors/code/src/"
LS = "crates/move_language_server/src/"
HOOK = "cfg(move_ls_verif): trace/control points around the worker task, the event loop turn, and a read-only projection of the server state"

prop("P01", "Published diagnostics converge to the newest text of every open document",
 "Whatever the editor sends and however the worker threads are scheduled, once the editor stops sending and the server has gone idle, the last diagnostics published for each open document are exactly the diagnostics of the newest text the editor gave for it. Every open document gets such a publication (an empty one when its text has no problem), and it is never overwritten by the result of a computation on an older text.",
 ["schedules", "histories"], "every order of open/change/close notifications over several documents, interleaved in every way with the start, completion, cancellation and delivery of background diagnostic computations",
 "No existing test runs the server at all; the races between a finished computation, its delivery and the next edit depend on thread scheduling.",
 [LS+"main_loop.rs", LS+"global_state.rs", LS+"diagnostics.rs", LS+"thread_pool.rs", LS+"reload.rs", LS+"mem_docs.rs"],
 [("event loop turn: apply changes, schedule a computation, publish what changed", LS+"main_loop.rs handle_event/update_diagnostics"),
  ("cancellation of computations on outdated snapshots", "crates/ide_db/src/apply_change.rs request_cancellation"),
  ("change set of the diagnostic store", LS+"diagnostics.rs set_native_diagnostics/take_changes")],
 [("open documents", "path -> version", LS+"mem_docs.rs"), ("file contents", "newest text per file", "crates/vfs/src/lib.rs")],
 ["textDocument/publishDiagnostics notifications on the connection"], HOOK)

prop("P02", "A diagnostics publication carries the version of the text it describes",
 "Every diagnostics publication that carries a document version describes the text the document had at that version: no publication ever pairs the problems of one text with the version number of another. A publication for an open document carries a version, a publication for a document that is not open carries none, and publications for a document never go back to an older version while it stays open.",
 ["schedules", "histories"], "every interleaving of edits with background computations and their delivery, including results already queued when a newer edit is handled",
 "Version labelling goes wrong only when a result is in flight while a newer edit is processed; no existing test reaches the event loop.",
 [LS+"main_loop.rs", LS+"mem_docs.rs", LS+"global_state.rs"],
 [("version looked up at publication time", LS+"main_loop.rs handle_event"), ("results of superseded computations are ignored", LS+"main_loop.rs")],
 None, ["version and diagnostics of textDocument/publishDiagnostics"], HOOK)

prop("P03", "Every request is answered exactly once, with the right outcome",
 "Every request the client sends is answered exactly once, with its own id: shutdown succeeds with a null result, an unknown method gets a method-not-found error, bad parameters get an invalid-parameters error, and any request after shutdown gets an invalid-request error. The server never answers an id that is not pending (a cancel for an unknown or already answered id produces nothing), and notifications are never answered, known or unknown, well-formed or not. (Out of scope: two pending requests with one id, and responses to requests the server never made.)",
 ["histories", "inputs"], "every sequence of requests (known, unknown, malformed, integer and string ids, ids used again after their answer), cancellations, responses to the server's own requests and notifications, before and after shutdown",
 "No existing test exchanges a message with the server.",
 [LS+"main_loop.rs", LS+"dispatch.rs", LS+"global_state.rs"],
 [("pending-request table", LS+"global_state.rs register_request/respond/cancel"), ("request dispatcher", LS+"dispatch.rs RequestDispatcher")],
 [("pending requests", "ids received and not yet answered", LS+"global_state.rs req_queue"), ("shutdown flag", "shutdown was requested", LS+"global_state.rs")],
 ["responses on the connection"], None)

prop("P04", "Start-up, negotiation and termination follow the protocol",
 "The server process answers initialize with its capabilities and with the position encoding the client can use (byte columns exactly when the client offers utf-8), registers for save notifications exactly when the client supports dynamic registration of them (and goes on whether the client accepts that, refuses or does not answer), and reports diagnostic columns in the negotiated unit (UTF-16 units otherwise). After shutdown the exit notification ends the process with status zero; exit without shutdown, or the client vanishing, ends it promptly with a non-zero status.",
 ["histories", "configurations"], "every combination of client capabilities and every order of initialize/initialized/shutdown/exit/disconnect, with or without documents and computations in flight",
 "The binary, the handshake and process termination are not touched by any test.",
 [LS+"bin/move_language_server.rs", LS+"main_loop.rs", LS+"config.rs", LS+"caps.rs", LS+"lsp_ext.rs", LS+"global_state.rs"],
 [("handshake", LS+"bin/move_language_server.rs run_server"), ("main loop exit paths", LS+"main_loop.rs run"), ("encoding selection", LS+"config.rs offset_encoding")],
 None, ["stdin/stdout of the built executable, its exit status"], None)

prop("P05", "The server's copy of a document equals the client's after any edits",
 "After any sequence of open, change and close notifications the text the server holds for a document is exactly the text obtained by applying the notified changes in order: a whole-text change replaces it, a ranged change replaces exactly the characters between two positions (start not after end) given in lines and columns (UTF-16 units, or bytes where that was negotiated) of the text as left by the preceding change; a position past the end of the text means its end. Changes to a document that is not open, and notifications for non-file addresses, change nothing; other documents are never affected.",
 ["histories", "inputs"], "all sequences of changes (several per notification, ascending, descending or overlapping in lines, multi-byte and surrogate-pair characters, CRLF line ends) with positions that exist in the text they apply to or lie past its end",
 "The unit test applies ten hand-picked edits to ASCII-mostly strings; line-index reuse across a batch, UTF-16 arithmetic and the open/close protocol need every combination.",
 [LS+"lsp_utils.rs", LS+"main_loop.rs", LS+"from_proto.rs", LS+"mem_docs.rs", "crates/ide_db/src/line_index.rs"],
 [("sequential application with a lazily rebuilt line index", LS+"lsp_utils.rs apply_document_changes"), ("didOpen/didChange/didClose handlers", LS+"main_loop.rs on_notification")],
 [("document text", "bytes held for the file", "crates/vfs/src/lib.rs")],
 ["text of each file at the end of every event loop turn"], HOOK)

prop("P06", "Line-ending conversion removes exactly the carriage return of each CRLF",
 "The text that is analysed is the client's text with every CR LF pair replaced by LF and no other byte changed, and the file is remembered as using CR LF line ends whenever the text contains a carriage return. Consequently a document gives the same diagnostics, at the same lines and columns, whether it is sent with LF or with CR LF line ends.",
 ["inputs"], "all texts, in particular every arrangement of CR and LF characters (lone, doubled, leading, trailing)",
 "There is no test for the in-place conversion, which mutates a buffer and then asserts without checking that it is valid UTF-8.",
 [LS+"line_index.rs", LS+"reload.rs", LS+"global_state.rs"],
 [("in-place CRLF conversion", LS+"line_index.rs LineEndings::normalize"), ("conversion when changes are applied", LS+"global_state.rs process_changes")],
 None, ["analysed text", "published ranges"], HOOK)

prop("P07", "No document content can stop the server or the diagnostics of others",
 "For every text an open document may contain, however broken, the server stays alive, keeps answering requests, and still publishes that document's diagnostics and those of every other open document. Reading a text always terminates without a crash, in time bounded by the size of the text.",
 ["inputs", "histories"], "all document texts (any Unicode characters, unterminated strings, unbalanced or misplaced tokens, files of any length, nesting up to some hundred levels), alone and next to other open documents",
 "The parser tests read a dozen small files; one unhandled token anywhere takes the whole background computation down, for all documents.",
 ["crates/parser/src/lexer.rs", "crates/parser/src/parser.rs", "crates/parser/src/grammar.rs", "crates/parser/src/grammar/items.rs", "crates/parser/src/grammar/expressions.rs", LS+"main_loop.rs"],
 [("progress of every parsing loop", "crates/parser/src/grammar"), ("stuck detector", "crates/parser/src/parser.rs nth"), ("total token recognition", "crates/parser/src/lexer.rs find_token")],
 None, ["publications of a running server", "parsing as a library call"], HOOK)

prop("P08", "The virtual file system's change log reproduces its contents",
 "A file keeps its id for ever, different paths have different ids, and a file exists exactly when the last contents given for its path were not a removal. Each update that alters existence or contents is logged exactly once, as creation, modification or deletion according to what it did, updates that alter nothing are not logged, and taking the log empties it - so replaying the log on the previous contents gives the present ones.",
 ["histories"], "all sequences of content updates and removals over several paths (equivalent spellings of a path included) interleaved with taking the log",
 "No test touches the file table; id reuse, resurrected files and no-op updates only show in sequences.",
 ["crates/vfs/src/lib.rs", "crates/vfs/src/path_interner.rs"],
 [("change classification", "crates/vfs/src/lib.rs set_file_contents"), ("interning", "crates/vfs/src/path_interner.rs")],
 [("data", "contents or absence per id", "crates/vfs/src/lib.rs"), ("changes", "log since last taken", "crates/vfs/src/lib.rs")],
 ["public API of the file system crate"], None)

prop("P09", "Each file belongs to exactly one file set: the one with the longest root",
 "When files are partitioned by configured roots, every existing file is in exactly one file set: the one whose root is the longest configured prefix, in whole path components, of its path (the earliest-listed set if two list the same root), or the extra last set if no root matches; deleted files are in none. The result depends only on the configured roots and the set of existing files, never on the order in which roots were listed within a set or files were added.",
 ["configurations", "histories"], "all configurations of nested, disjoint, duplicate and sibling-prefixed roots over real and virtual paths, and all sets of files",
 "Two tests partition three files; nesting, duplicates, ties, order and deletions need every configuration.",
 ["crates/vfs/src/file_set.rs", "crates/vfs/src/vfs_path.rs", LS+"reload.rs"],
 [("longest prefix search", "crates/vfs/src/file_set.rs classify"), ("building the root map", "crates/vfs/src/file_set.rs build")],
 None, ["file sets returned by partition"], None)

prop("P10", "Relative paths resolve inside the anchor's file set and nowhere else",
 "Resolving a relative path against a file finds exactly the file of the same file set whose path is the anchor's directory joined with the relative path, and finds nothing when there is no such file, when the path climbs above a virtual root, or when the anchor is not in the set (for virtual roots, relative paths are of the form (../)*(./)*name/...); the path-to-file and file-to-path views of a set are inverse to each other.",
 ["inputs", "configurations"], "all file sets over nested directories and all relative paths built from names, '.', '..' and repeated separators for real roots, and of climbs followed by names for virtual roots",
 "There is no test of path resolution.",
 ["crates/vfs/src/file_set.rs", "crates/vfs/src/anchored_path.rs", "crates/vfs/src/vfs_path.rs"],
 [("resolution", "crates/vfs/src/file_set.rs resolve_path"), ("joining", "crates/vfs/src/vfs_path.rs join")],
 None, ["public API of the file set"], None)

prop("P11", "Incremental analysis equals analysis from scratch",
 "After any history of changes to files and source roots, every answer of the analysis (text, syntax tree, errors, diagnostics, line table, owning source root, local and library roots) is the one a fresh analysis would give if it were told only the final state. Answers do not depend on which questions were asked in between, and a removed file reads as empty.",
 ["histories"], "all histories of creating, editing and removing files, moving them between roots, switching roots between local and library, and re-partitioning, interleaved with queries",
 "No test applies more than one change to the analysis; stale memoised results only appear after particular change/query histories.",
 ["crates/base_db/src/change.rs", "crates/base_db/src/lib.rs", "crates/base_db/src/input.rs", "crates/ide_db/src/apply_change.rs", "crates/ide_db/src/lib.rs", "crates/ide/src/lib.rs", "crates/ide_diagnostics/src/lib.rs"],
 [("applying changes as query inputs with durabilities", "crates/base_db/src/change.rs apply"), ("derived queries", "crates/base_db/src/lib.rs, crates/ide_db/src/lib.rs")],
 None, ["public API of the analysis host"], None)

prop("P12", "A snapshot answers from its own moment or reports cancellation",
 "A snapshot of the analysis, used from any thread, gives for every question either the answer that was correct at the moment it was taken or reports that it was cancelled; it never mixes in later changes, never blocks for ever and never panics. A change is applied only when no older snapshot is still in use and as soon as the last one is dropped, and questions asked after it see all of it.",
 ["schedules"], "all interleavings of several snapshots on several threads asking questions, being dropped, and a writer applying changes",
 "Cancellation needs a writer and a reader at the same time; no test uses two threads.",
 ["crates/ide/src/lib.rs", "crates/ide_db/src/apply_change.rs", "crates/ide_db/src/lib.rs", LS+"global_state.rs"],
 [("cancellation request before each write", "crates/ide_db/src/apply_change.rs"), ("catching cancellation", "crates/ide/src/lib.rs with_db")],
 None, ["results of questions on snapshots"], None)

prop("P13", "Tokens cover the text, each the longest match of its kind",
 "For every text, the tokens read from it, put end to end, are exactly the text; each token is non-empty, ends on a character boundary, and is the longest match at its position with the kind the language assigns: keywords versus identifiers, decimal and hexadecimal numbers with their suffixes, byte strings with escapes, operators, comments and white space. Characters that belong to no token form error tokens of their own instead of stopping the reading.",
 ["inputs"], "all strings over the language's characters and over characters outside it",
 "The tests tokenise a dozen files; operator prefixes, suffixes, escapes and unexpected characters need every short string.",
 ["crates/parser/src/lexer.rs", "crates/parser/src/syntax_kind/generated.rs"],
 [("token recognition", "crates/parser/src/lexer.rs find_token"), ("keyword table", "crates/parser/src/syntax_kind/generated.rs from_keyword")],
 None, ["token kinds and lengths of the leaves of the syntax tree"], None)

prop("P14", "The syntax tree reproduces the source text, with errors inside it",
 "For every text, the leaves of the syntax tree concatenated in order are exactly the text, the root is a source file spanning all of it, and children partition their parent. Every reported error lies within the text on a character boundary, errors are reported in text order, and parsing the same text again gives the same tree and errors.",
 ["inputs"], "all texts, valid or broken",
 "The tests compare about ten trees; losslessness must survive every error-recovery path.",
 ["crates/syntax/src/parsing.rs", "crates/syntax/src/parsing/text_tree_sink.rs", "crates/parser/src/event.rs", "crates/parser/src/marker.rs", "crates/parser/src/parser.rs", "crates/syntax/src/lib.rs"],
 [("re-attaching white space and comments", "crates/syntax/src/parsing/text_tree_sink.rs"), ("event stream to tree", "crates/parser/src/event.rs process")],
 None, ["syntax tree and errors of a parse"], None)

prop("P15", "Programs of the supported Move subset parse to the intended tree",
 "Every program of the supported language - scripts, modules (with or without address), address blocks, functions with parameters and return types, structs with type parameters and fields, let bindings with patterns and types, calls, field access, record, block, parenthesised, unary and binary expressions, literals and paths - parses without errors into a tree whose structure is the one the grammar prescribes. In particular binary operators group by precedence (= lowest, then < >, |, ^, &, + -, * / %) and to the left, prefix operators bind tighter than binary ones, calls and field accesses tightest. (The subset is the one the parser implements: no use, const, public, friend, spec, if, while, loop, ==, &&, ||, borrow and tuple expressions or wildcard patterns; every statement but the last of a block ends with a semicolon.)",
 ["programs"], "all programs the grammar generates up to a size bound, and randomly sampled larger ones",
 "The tests compare ten fixed files; operator combinations and nesting contexts multiply beyond any sample.",
 ["crates/parser/src/grammar.rs", "crates/parser/src/grammar/items.rs", "crates/parser/src/grammar/items/adt.rs", "crates/parser/src/grammar/expressions.rs", "crates/parser/src/grammar/expressions/atom.rs", "crates/parser/src/grammar/patterns.rs", "crates/parser/src/grammar/types.rs", "crates/parser/src/grammar/params.rs", "crates/parser/src/grammar/paths.rs", "crates/parser/src/grammar/generic_params.rs"],
 [("recursive descent and binding powers", "crates/parser/src/grammar/expressions.rs")],
 None, ["syntax tree of a parse", "typed tree accessors"], None)

prop("P16", "Layout and comments never change how a program is understood",
 "Inserting or removing white space, line breaks and line comments between two tokens (keeping the tokens themselves the same) changes neither the structure of the syntax tree without white space and comments, nor the errors and the tokens they follow. Comments and white space stay in the tree, where they stood.",
 ["programs", "inputs"], "all placements of blanks, newlines and comments between the tokens of valid and broken programs",
 "The tests contain one fixed layout for each construct.",
 ["crates/parser/src/lexer.rs", "crates/parser/src/grammar/paths.rs", "crates/parser/src/grammar/items.rs", "crates/syntax/src/parsing/text_tree_sink.rs"],
 [("skipping of blanks and comments when reading ahead", "crates/parser/src/lexer.rs lookahead/lookahead_2/bump")],
 None, ["syntax tree of a parse"], None)

prop("P17", "Line and column conversion is exact and invertible",
 "For every text and every offset at a character boundary, converting to line and column gives the number of line feeds before it and the number of bytes (or UTF-16 units) since the last one, and converting back gives the same offset; columns in bytes and in UTF-16 units convert into each other without loss at character boundaries. Splitting a range at line ends gives its non-empty per-line pieces, in order and without gaps.",
 ["inputs"], "all texts over one- to four-byte characters and line feeds, all offsets and ranges",
 "Three tests check a handful of positions.",
 ["crates/ide_db/src/line_index.rs", LS+"to_proto.rs", LS+"from_proto.rs"],
 [("line table and wide-character table", "crates/ide_db/src/line_index.rs")],
 None, ["public API of the line table"], None)

prop("P18", "Diagnostics are exactly the syntax errors, at their places",
 "The diagnostics of a file are its syntax errors, in order and up to the first 128, each with severity error, the error's message prefixed as a syntax error, and the range at which the error was found; a file without syntax errors has none. In the published form the range is that range in lines and columns, the code and source name are set, the place is not marked as unused or deprecated code, and nothing is added, lost or duplicated.",
 ["inputs"], "all texts, including ones with more errors than the limit, multi-byte characters and CRLF line ends",
 "No test compares diagnostics.",
 ["crates/ide_diagnostics/src/lib.rs", "crates/ide/src/lib.rs", LS+"handlers.rs", LS+"to_proto.rs"],
 [("conversion of errors to diagnostics", "crates/ide_diagnostics/src/lib.rs diagnostics"), ("conversion to the protocol", LS+"handlers.rs publish_diagnostics")],
 None, ["diagnostics of the analysis", "textDocument/publishDiagnostics"], None)

prop("P19", "Path arithmetic is exact and stays inside the root",
 "Normalising an absolute path removes '.' and repeated separators and resolves '..' without ever leaving the root; it is idempotent, and two spellings of the same location become equal. Joining, parent, prefix test and name/extension splitting agree with that component-wise reading for real paths, and for virtual paths (absolute, without '.' and '..'; joined with relative paths of the form (../)*(./)*name/...) a join that would climb above the root is refused.",
 ["inputs"], "all paths over names, dots, separators and extensions up to a length, for real and virtual paths",
 "One test checks four file names.",
 ["crates/paths/src/lib.rs", "crates/vfs/src/vfs_path.rs"],
 [("normalisation", "crates/paths/src/lib.rs normalize_path"), ("virtual path operations", "crates/vfs/src/vfs_path.rs VirtualPath")],
 None, ["public API of the path types"], None)

prop("P20", "Directory filters: the innermost include decides, its excludes cut out",
 "A path is selected by a directory filter exactly when it lies under one of the included directories and under no excluded directory that itself lies in the innermost such included directory; a file additionally needs one of the listed extensions. The answer does not depend on the order of the lists, and the standard filters exclude the directories they name.",
 ["configurations", "inputs"], "all filters with nested includes and excludes and all paths over a small directory tree",
 "There is no test of the filters.",
 ["crates/vfs/src/loader.rs"],
 [("innermost include search", "crates/vfs/src/loader.rs includes_path")],
 None, ["public API of the loader types"], None)

prop("P21", "Project discovery finds the right manifests in every directory layout",
 "Discovering from a directory gives the Dove.toml of the nearest enclosing directory (itself included) if there is one, and otherwise the Dove.toml files of its immediate subdirectories, and nothing deeper; only files count as manifests, also by way of symbolic links; discovering from several directories gives the union, sorted and without duplicates, ignoring unreadable ones; discovering a single project succeeds exactly when there is just one. Only the exact file name Dove.toml is accepted for a manifest, and loading one gives exactly its package fields, with absent optional ones absent, or an error when it is unreadable or malformed.",
 ["configurations"], "all small directory trees with manifests at any places, and all start directories",
 "One test parses one manifest; discovery is untested.",
 ["crates/project_model/src/lib.rs", "crates/project_model/src/manifest_path.rs", "crates/project_model/src/workspace.rs", "crates/project_model/src/dove_toml.rs"],
 [("search in parents, then children", "crates/project_model/src/lib.rs discover"), ("union over roots", "crates/project_model/src/lib.rs discover_all")],
 None, ["public API of the project model"], None)

prop("P22", "The diagnostic store reports exactly the files whose diagnostics changed",
 "After any sequence of replacing a file's native diagnostics, adding checker diagnostics and clearing checker diagnostics, the diagnostics of a file are its native ones followed by its distinct checker ones in order of arrival, and the set of changed files contains every file whose diagnostics differ from those last reported and none that were not touched by an effective update; taking the set empties it. Replacing native diagnostics by equal ones is not a change; the first native diagnostics given for a file, even an empty list, are one.",
 ["histories"], "all sequences of operations over a few files and diagnostics, including equal, reordered, shortened, extended and empty lists",
 "The store has no tests; lost or spurious changes show only in sequences.",
 [LS+"diagnostics.rs"],
 [("equality-based change detection", LS+"diagnostics.rs set_native_diagnostics"), ("checker diagnostics with deduplication", LS+"diagnostics.rs add_check_diagnostic/clear_check")],
 None, ["contents of the store and the set it reports"], "cfg(move_ls_verif): re-export of the diagnostic store")

prop("P23", "Every text that is not a program is reported, first where it stops being one",
 "A text has syntax errors exactly when it is not a program of the accepted language: none is ever reported in a program, and whatever is missing, superfluous or out of place in another text is reported, whatever stands before or after it. The first error stands directly behind the last token up to which the text can still be (the beginning of) a program. (The accepted language is that of P15, and these forms are tolerated too: missing semicolons between statements, several expressions in one pair of parentheses, a semicolon instead of the braces of a script or module, structs in scripts, addresses of modules in address blocks, empty lists of type parameters and of bounds and a last + in them, and record fields that are any expression beginning with a name or number. A number counts as the address of a module only together with the :: behind it, :: counts as part of a path only if neither * nor { follows, and a number as a record field only if no colon follows. Texts nested beyond the parser's limit are out of scope.)",
 ["inputs"], "all texts: programs, programs with tokens missing, added, replaced or cut off anywhere, and texts that are no programs at all; any layout",
 "The parser recovers from errors in dozens of places, each of which may forget to report one; tests show the errors of a handful of broken programs.",
 ["crates/parser/src/grammar.rs", "crates/parser/src/grammar/items.rs", "crates/parser/src/grammar/expressions.rs", "crates/parser/src/grammar/patterns.rs", "crates/parser/src/parser.rs"],
 [("expect, error, err_recover and error_and_skip_until report an error each", "crates/parser/src/parser.rs"),
  ("lists end at their closing token or report", "crates/parser/src/grammar/params.rs param_list, crates/parser/src/grammar/expressions.rs arg_list, record_expr_field_list"),
  ("lookahead decides between forms", "crates/parser/src/grammar/items.rs module, crates/parser/src/grammar/paths.rs path_for_qualifier")],
 None, ["the reported errors and the leaves of the tree"], None)

prop("P24", "A document is known by its location, however its URI is written",
 "Two URIs name the same document exactly when they denote the same absolute path of a file on this host: percent-encoding of any bytes, upper or lower case of scheme, host and hexadecimal digits, dot segments (also encoded ones), repeated, backward and trailing slashes, the host localhost or none, queries and fragments make no difference, and every other difference does. So whatever the editor does to a document by one URI has its effect on the document by any other, what is published for a document goes to a URI that denotes exactly its path, and messages about any other URI (another scheme, another host, no URI at all) have no effect. (An encoded slash counts as a slash; next to an encoded double dot it is left open. Windows drive letters are left open.)",
 ["inputs", "histories"], "all URIs made of a few pieces, and all histories of messages that write documents in different ways",
 "No test sends a URI.",
 [LS+"from_proto.rs", LS+"to_proto.rs", LS+"global_state.rs", "crates/vfs/src/vfs_path.rs", "crates/vfs/src/path_interner.rs"],
 [("URI to path", LS+"from_proto.rs abs_path/vfs_path"), ("path to URI", LS+"to_proto.rs url_from_abs_path, "+LS+"global_state.rs file_id_to_url"), ("path identity", "crates/vfs/src/path_interner.rs")],
 None, ["textDocument/didOpen, didChange, didClose", "textDocument/publishDiagnostics"], None)

prop("P25", "One language server per project that is looked at, and none left behind",
 "While the editor extension is active, a workspace folder has at most one language server at every moment. Once nothing is outstanding, a server runs for exactly those folders that hold a Dove.toml whose metadata can be read and of which, since the extension was last (re)loaded, a Move document or the Dove.toml was in front or the Dove.toml was saved. A server runs in its folder, is the program that the settings name, is given the Move files of that folder and nothing else, and is told the project's dialect, its account address and the folders of its modules, its local and its git dependencies, as the metadata says. For each project with a server, and for no other, the editor is offered the tasks to build and to test it with dove, in its folder, also after a server that could not be started or stopped. If the metadata cannot be read, an error is shown and no server started. By the command move.reload, by a change of the extension's settings and by a Dove.toml saved, created or deleted in the editor after which the metadata can be read, every server started before is told to stop and the extension loads again, also while servers are still about to be started; when the editor closes, all are told to stop and none is started any more.",
 ["schedules", "histories"], "all orders in which documents are shown, manifests and settings change, reloads are asked for and answers from outside arrive",
 "The extension has no tests; servers are lost or doubled only in particular interleavings of its awaits.",
 [ED+"extension.ts", ED+"components/ws.ts", ED+"components/dove.ts", ED+"components/client.ts"],
 [("one workspace per folder", ED+"components/ws.ts ClientWorkspaceFactory.initClientWorkspace"), ("stopping and starting", ED+"components/ws.ts ClientWorkspace"), ("reload", ED+"extension.ts tryActivate")],
 None, ["servers started and stopped, their options and document selectors", "commands and messages of the editor"], None)

prop("P26", "A downloaded tool is used only when it is complete",
 "The editor extension runs the dove and language server programs that the settings name (~/ at the beginning is the home directory). One that is not named is the file of the release for this tool and this platform, kept under the name it has in the release in the extension's storage folder, and downloaded only if it is not there. Whatever fails at any point, however many windows do this at once and whenever one of them is killed, that folder has under that name a complete executable file or none, one that is there stays, and nothing incomplete is ever run. Every request or download that fails is reported with the choice to retry, to enter another access token (used when asking for the release from then on; an empty one means none) or to give up. Giving up, or a dove that cannot be run, ends in an error message without any server started.",
 ["schedules", "crash points", "faults"], "all orders of answers, failures, kills and choices in one or more windows that share the storage folder",
 "The extension has no tests; partial files show only when something fails, is killed or runs twice at the wrong moment.",
 [ED+"components/bootstrap.ts", ED+"components/net.ts", ED+"components/persistent_state.ts"],
 [("which program", ED+"components/bootstrap.ts getBinaryPathEnsureExists"), ("download to a file of another name, then rename", ED+"components/net.ts download/downloadFile"), ("retry", ED+"components/net.ts downloadWithRetryDialog")],
 None, ["files in the storage folder", "requests, dialogs, programs run"], None)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
