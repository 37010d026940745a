id = 'uri-undecoded'
property = 'P24'
needs = 'one document written with two URIs that differ in what is percent-encoded'
breaks = 'the server takes them for two documents: a change by the other URI is not seen'
edits = [('crates/move_language_server/src/from_proto.rs', '''url.to_file_path().map_err(|()| "url is not a file")?;''',
          '''url.to_file_path().map_err(|()| "url is not a file")?;
    let path = path.parent().map_or(path.clone(), |it| it.join(url.path().rsplit('/').next().unwrap_or("")));''')]
demo = r'''
c = Client()
c.open('file:///w/a+b.move', 1, 'script {')
c.settle(1)
c.change('file:///w/a%2Bb.move', 2, ['\n\nscript {'])
c.settle(1)
check([p['version'] for p in c.publications('file:///w/a+b.move')] == [1, 2], 'the change is not seen')
c.kill()
'''
