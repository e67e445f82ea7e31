PROP = 'C28'
NEEDS = 'build with an empty query'
BREAKS = 'Url.build drops an empty query, so the URL differs from its parts'
EDITS = [('src/url.rs', """        let mut url = format!("{scheme}://{url_host}");
        if let Some(path) = path {
            url.push('/');
            url.push_str(path);
        }
        if let Some(query) = query {""", """        let mut url = format!("{scheme}://{url_host}");
        if let Some(path) = path {
            url.push('/');
            url.push_str(path);
        }
        if let Some(query) = query.filter(|q| !q.is_empty()) {""")]
DEMO = r'''
from pydantic_core import Url
u = Url.build(scheme='http', host='h.org', path='a', query='', fragment='f')
assert str(u) == 'http://h.org/a?#f' and u.query == '', str(u)
assert str(Url.build(scheme='http', host='h.org', path='a', query='b')) == 'http://h.org/a?b'
'''
