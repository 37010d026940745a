id = 'save-registration'
property = 'P04'
needs = 'a client that supports dynamic registration of synchronization but no save notifications'
breaks = 'the server registers for save notifications, which the client does not support'
edits = [('crates/move_language_server/src/config.rs', 'caps.did_save == Some(true) && caps.dynamic_registration == Some(true)',
 'caps.did_save != Some(false) && caps.dynamic_registration == Some(true)')]
demo = r'''
for sync, want in [({'dynamicRegistration': True}, False), ({'dynamicRegistration': True, 'didSave': True}, True), ({'didSave': True}, False)]:
    c = Client({'textDocument': {'synchronization': sync}})
    c.settle(1)
    c.kill()
    got = any(m.get('method') == 'client/registerCapability' for m in c.log)
    check(got == want, '%s: registered %s' % (sync, got))
'''
