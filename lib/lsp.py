"""Messages of the language server protocol, and what a client knows from those it received."""


def uri(doc):
    return 'file:///w/%s.move' % doc


def note(method, params):
    return {'method': method, 'params': params}


def request(id_, method, params=None):
    m = {'id': id_, 'method': method}
    if params is not None:
        m['params'] = params
    return m


def did_open(u, version, text):
    return note('textDocument/didOpen',
                {'textDocument': {'uri': u, 'languageId': 'move', 'version': version, 'text': text}})


def did_change(u, version, changes):
    return note('textDocument/didChange', {'textDocument': {'uri': u, 'version': version}, 'contentChanges': changes})


def full(text):
    return {'text': text}


def edit(sl, sc, el, ec, text):
    return {'range': {'start': {'line': sl, 'character': sc}, 'end': {'line': el, 'character': ec}}, 'text': text}


def did_close(u):
    return note('textDocument/didClose', {'textDocument': {'uri': u}})


def publications(turn):
    return [m['params'] for m in turn['messages'] if m.get('method') == 'textDocument/publishDiagnostics']


def diag_key(ds):
    """What the client shows of a list of diagnostics."""
    return [[d['range']['start']['line'], d['range']['start']['character'], d['range']['end']['line'],
             d['range']['end']['character'], d.get('severity'), d['message']] for d in ds]
