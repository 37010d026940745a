id = 'shutdown-unregistered'
property = 'P03'
needs = 'a request sent after shutdown'
breaks = 'the request is not answered, as it is refused before it is registered as pending'
edits = [('crates/move_language_server/src/main_loop.rs', '''        self.register_request(&req, request_received);

        if self.shutdown_requested {''', '''        if self.shutdown_requested {'''),
 ('crates/move_language_server/src/main_loop.rs', '''            return Ok(());
        }

        RequestDispatcher {''', '''            return Ok(());
        }
        self.register_request(&req, request_received);

        RequestDispatcher {''')]
demo = r'''
c = Client()
r = c.request('shutdown', None)
check(r and 'error' not in r, 'shutdown: %s' % r)
r = c.request('textDocument/hover', {}, timeout=5)
c.kill()
check(r and r.get('error', {}).get('code') == -32600, 'after shutdown: %s' % r)
'''
