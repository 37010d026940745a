id = 'dollar-requests'
property = 'P03'
needs = 'a request (not a notification) of an unknown method whose name starts with $/'
breaks = 'such a request is never answered'
edits = [('crates/move_language_server/src/dispatch.rs', '        if let Some(req) = self.req.take() {\n            tracing::error!("unknown request: {:?}", req);',
'''        if let Some(req) = self.req.take() {
            // Implementation dependent messages can be ignored.
            if req.method.starts_with("$/") {
                return;
            }
            tracing::error!("unknown request: {:?}", req);''')]
demo = r'''
c = Client()
for m in ['textDocument/foo', '$/foo', 'x/$/foo']:
    r = c.request(m, {}, timeout=5)
    check(r is not None and r['error']['code'] == -32601, '%s: %s' % (m, r))
c.kill()
'''
