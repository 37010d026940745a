id = 'uri-lossy'
property = 'P24'
needs = 'two files whose names are no UTF-8 and differ only in such bytes'
breaks = 'the server takes them for one document'
edits = [('crates/move_language_server/src/from_proto.rs', '''Ok(AbsPathBuf::try_from(path).unwrap())''', '''Ok(AbsPathBuf::assert(path.to_string_lossy().into_owned().into()))''')]
demo = r'''
c = Client()
c.open('file:///w/%FFa.move', 1, 'script {')
c.settle(1)
c.open('file:///w/%FEa.move', 2, '\n\nscript {')
c.settle(1)
check([p['version'] for p in c.publications('file:///w/%FFa.move')] == [1], 'nothing is published of the first one')
check([p['version'] for p in c.publications('file:///w/%FEa.move')] == [2], 'nothing is published of the second one')
c.kill()
'''
