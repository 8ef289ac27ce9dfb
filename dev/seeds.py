S = []
def seed(id, prop, needs, breaks, edits, main='', env='', sh=''):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, env=env, sh=sh))

seed('C03-query', 'C03', 'two requests which differ by their query string only',
 'The cache entry of a URL is keyed without its query: another query gets the first answer.',
 [('cache/src/cache.rs', 'Sha256::digest(url.as_str())', 'Sha256::digest(&url[..url::Position::AfterPath])')], r'''
fn main() {
    let cache = logreduce_cache::Cache::new().unwrap();
    let base = Url::parse("http://localhost/api/").unwrap();
    let a = base.join("builds?job_name=a").unwrap();
    let b = base.join("builds?job_name=b").unwrap();
    let mut s = String::new();
    cache.remote_add(&base, &a, std::io::Cursor::new("a")).unwrap().read_to_string(&mut s).unwrap();
    assert!(cache.remote_get(&base, &a).is_some());
    assert!(cache.remote_get(&base, &b).is_none(), "the answer for {} is found for {}", a, b);
}
''')
seed('C02-head', 'C02', 'running without LOGREDUCE_CACHE and probing the availability of baseline logs',
 'The availability probe is recorded in the content cache although the cache is off.',
 [('model/src/reader.rs', '    } else {\n        remote::head(url)\n    }', '    } else {\n        let result = remote::head(url)?;\n        CACHE.head_set(base, url, result).or(Ok(result))\n    }')], r'''
fn main() {
    let log = serve(|_, _| (200, String::new()));
    let api = serve(move |_, p| {
        let build = |uuid: &str, change: u32| format!(r#"{{"uuid":"{}","job_name":"j","result":"SUCCESS","voting":false,"log_url":"{}","final":true,"project":"p","branch":"m","pipeline":"check","duration":42,"change":{},"ref_url":"https://localhost/1","ref":"r","artifacts":[],"end_time":"2014-07-08T09:10:11","start_time":"2014-07-05T09:10:11","event_id":"e"}}"#, uuid, log.as_str(), change);
        if p.starts_with("/api/builds") {
            (200, format!("[{}]", build("b", 2)))
        } else {
            (200, build("a", 1))
        }
    });
    let url = api.join("build/2498d287ec4b442a95184b7a4bec9b2d").unwrap();
    let content = logreduce_model::Content::from_input(logreduce_model::Input::Url(url.to_string())).unwrap();
    assert_eq!(content.discover_baselines().unwrap().len(), 1);
    let left = files(Path::new(&std::env::var("XDG_CACHE_HOME").unwrap()));
    assert!(left.is_empty(), "the cache is off, but {:?} were written", left);
}
''')
seed('C06-probe', 'C06', 'a baseline whose logs answer with a 4xx status (expired logs)',
 'A build whose logs are gone (404) is taken as available, and its error pages are used as baseline.',
 [('model/src/reader.rs', 'Ok(resp.status().is_success())', 'Ok(!resp.status().is_server_error())')], r'''
fn main() {
    let log = serve(|_, _| (404, "gone".to_string()));
    let api = serve(move |_, p| {
        let build = |uuid: &str, change: u32| format!(r#"{{"uuid":"{}","job_name":"j","result":"SUCCESS","voting":false,"log_url":"{}","final":true,"project":"p","branch":"m","pipeline":"check","duration":42,"change":{},"ref_url":"https://localhost/1","ref":"r","artifacts":[],"end_time":"2014-07-08T09:10:11","start_time":"2014-07-05T09:10:11","event_id":"e"}}"#, uuid, log.as_str(), change);
        if p.starts_with("/api/builds") {
            (200, format!("[{}]", build("b", 2)))
        } else {
            (200, build("a", 1))
        }
    });
    let url = api.join("build/2498d287ec4b442a95184b7a4bec9b2d").unwrap();
    let content = logreduce_model::Content::from_input(logreduce_model::Input::Url(url.to_string())).unwrap();
    let res = content.discover_baselines();
    assert!(res.is_err(), "a build without logs was selected: {:?}", res);
}
''')
seed('C36-key', 'C36', 'the cache on and a source below a directory (a non-zero prefix)',
 'A fetched file is stored under another key than it is looked up with, so it is fetched again and again.',
 [('model/src/reader.rs', 'CACHE.remote_add(base, url, resp)?', 'CACHE.remote_add(url, url, resp)?')], r'''
fn main() {
    let count = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let c = count.clone();
    let url = serve(move |_, _| {
        c.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        (200, "data".to_string())
    });
    let file = url.join("logs/f.txt").unwrap();
    for _ in 0..2 {
        let mut s = String::new();
        logreduce_model::Source::url_open(url.as_str().len(), &file).unwrap().read_to_string(&mut s).unwrap();
        assert_eq!(s, "data");
    }
    let n = count.load(std::sync::atomic::Ordering::SeqCst);
    assert_eq!(n, 1, "the file was fetched {} times", n);
}
''', env='export LOGREDUCE_CACHE=1\n')

TRAIN = r'''
use logreduce_model::{Content, Input, Model, OutputMode, Source};
fn content(p: &Path) -> Content {
    Content::from_input(Input::Path(p.to_str().unwrap().to_string())).unwrap()
}
fn train(p: &Path) -> Model {
    Model::train(OutputMode::Quiet, vec![content(p)], logreduce_model::hashing_index::new).unwrap()
}
/// A number in letters, since the digits are ignored
fn word(mut n: usize) -> String {
    let mut s = String::from("word");
    for _ in 0..5 {
        s.push((b'g' + (n % 16) as u8) as char);
        n /= 16;
    }
    s
}
'''
seed('C08-late', 'C08', 'a source which becomes unreadable after more than 512 unlike lines, once anomalies were already found in it',
 'The read error of a source is only reported when no anomaly was found in it before.',
 [('model/src/model.rs', '''                                            read_errors.push((source.clone(), format!("{}", err)));
                                            break;''', '''                                            if anomalies.is_empty() {
                                                read_errors
                                                    .push((source.clone(), format!("{}", err)));
                                            }
                                            break;''')], TRAIN + r'''
fn main() {
    let base = write("base.log", b"the first line\nthe second line\n");
    let mut data = Vec::new();
    for n in 0..1000 {
        data.extend(format!("{} {}\n", word(n), word(n + 5000)).as_bytes());
    }
    data.extend(b"broken \xff\xfe\n");
    let target = write("target.log", &data);
    let report = train(&base).report(OutputMode::Quiet, content(&target)).unwrap();
    assert!(!report.log_reports.is_empty());
    assert_eq!(report.read_errors.len(), 1);
}
''')
seed('C09-total', 'C09', 'a target with a source in which no anomaly is found',
 'The lines of the sources without anomaly are not counted in total_line_count.',
 [('model/src/model.rs', '''                                total_line_count += processor.line_count;
                                if !anomalies.is_empty() {''', '''                                if !anomalies.is_empty() {
                                    total_line_count += processor.line_count;''')], TRAIN + r'''
fn main() {
    let base = write("base/f.log", b"the first line\nthe second line\n");
    write("target/a/f.log", b"the first line\nthe second line\n");
    write("target/b/f.log", b"the first line\nsomething went completely wrong\n");
    let report = train(&base).report(OutputMode::Quiet, content(&dir().join("target"))).unwrap();
    assert_eq!(report.log_reports.len(), 1);
    assert_eq!(report.total_line_count, 4);
}
''')
seed('C12-abort', 'C12', 'several baseline sources with the same index name, the first of which is not readable to its end',
 'The training stops at the first source that cannot be read: the lines of the next ones are not in the index.',
 [('model/src/model.rs', '''                tracing::error!("{}: failed to load: {}", source, e)
            }''', '''                tracing::error!("{}: failed to load: {}", source, e);
                break;
            }''')], TRAIN + r'''
fn main() {
    write("base/a/f.log", b"the first line\nbroken \xff\xfe\n");
    write("base/b/f.log", b"the second line is known\n");
    write("base/c/f.log", b"another message entirely different\n");
    let target = write("target/f.log", b"the first line\nthe second line is known\nanother message entirely different\n");
    let sources = content(&dir().join("base")).get_sources().unwrap();
    assert_eq!(sources.len(), 3);
    let mut sources = sources;
    sources.sort_by_key(|s| s.as_str().to_string());
    let index = logreduce_model::Index::train(&sources, logreduce_model::hashing_index::new()).unwrap();
    let src = Source::from_pathbuf(target);
    let mut skip = std::collections::HashSet::new();
    let found = index.inspect(OutputMode::Quiet, &src, &mut skip).count();
    assert_eq!(found, 0, "known lines are anomalies");
}
''')
seed('C13-flush', 'C13', 'a new line followed by more than 5120 lines that were all seen before, while less than 512 unlike lines wait',
 'When the source contains mostly duplicate lines, the waiting lines are dropped instead of being compared.',
 [('model/src/process.rs', '''                // the source contains mostly duplicate line.
                self.do_search_anomalies();''', '''                // the source contains mostly duplicate line.
                self.reset(0);''')], TRAIN + r'''
fn main() {
    let base = write("base.log", b"the first line\nthe second line\n");
    let mut data = b"the first line\nsomething went completely wrong\n".to_vec();
    for _ in 0..6000 {
        data.extend(b"the first line\n");
    }
    let target = write("target.log", &data);
    let report = train(&base).report(OutputMode::Quiet, content(&target)).unwrap();
    assert_eq!(report.total_anomaly_count, 1);
}
''')
seed('C14-marker', 'C14', 'an anomaly less than three lines before the log-classify marker',
 'The last anomaly, which still waits for its context, is lost when the inspection stops at the log-classify marker.',
 [('model/src/process.rs', '''        if let Some(anomaly) = &self.current_anomaly {
            // No more after context available
            self.anomalies.push_back(anomaly.clone());
            self.current_anomaly = None;
        }
        Ok(())''', '''        match self.current_anomaly.take() {
            // No more after context available
            Some(anomaly) if !self.stopped => self.anomalies.push_back(anomaly),
            _ => {}
        }
        Ok(())''')], TRAIN + r'''
fn main() {
    let base = write("base.log", b"the first line\nthe second line\n");
    let target = write("target.log", b"the first line\nsomething went completely wrong\nthe second line\nTASK [log-classify : run] ***\nanother bad thing\n");
    let report = train(&base).report(OutputMode::Quiet, content(&target)).unwrap();
    assert_eq!(report.total_anomaly_count, 1);
}
''')
ZBUILD = r'''
fn build(uuid: &str, change: u32, log: &str) -> String {
    format!(r#"{{"uuid":"{}","job_name":"j","result":"SUCCESS","voting":false,"log_url":"{}","final":true,"project":"p","branch":"m","pipeline":"check","duration":42,"change":{},"ref_url":"https://localhost/1","ref":"r","artifacts":[],"end_time":"2014-07-08T09:10:11","start_time":"2014-07-05T09:10:11","event_id":"e"}}"#, uuid, log, change)
}
'''
seed('C21-self', 'C21', 'a successful target build, which is in the answer of the api to the query for baselines',
 'The target build can be selected as its own baseline.',
 [('model/src/zuul.rs', '.filter(|(score, build)| score.is_some() && self.uuid != build.uuid)', '.filter(|(score, _)| score.is_some())')], ZBUILD + r'''
fn main() {
    let log = serve(|_, _| (200, String::new()));
    let uuid = "2498d287ec4b442a95184b7a4bec9b2d";
    let api = serve(move |_, p| {
        let b = build(uuid, 1, log.as_str());
        (200, if p.starts_with("/api/builds") { format!("[{}]", b) } else { b })
    });
    let url = api.join(&format!("build/{}", uuid)).unwrap();
    let content = logreduce_model::Content::from_input(logreduce_model::Input::Url(url.to_string())).unwrap();
    let res = content.discover_baselines();
    assert!(res.is_err(), "the build is its own baseline: {:?}", res);
}
''')
seed('C40-long', 'C40', 'the url of a file named by a sha1 below a build directory, on a plain log server',
 'A url which is not the page of a Zuul build is resolved as if it was one.',
 [('model/src/zuul.rs', 's.len() == 32', 's.len() >= 32')], r'''
fn main() {
    let url = Url::parse("http://localhost/logs/build/da39a3ee5e6b4b0d3255bfef95601890afd80709").unwrap();
    assert!(logreduce_model::Content::from_zuul_url(&url).is_none(), "not the page of a build");
}
''')
seed('C40-case', 'C40', 'a build identifier with upper case letters',
 'The build is requested under another identifier than the one of its page.',
 [('model/src/zuul.rs', 'api.join("build/")?.join(uid)?', 'api.join("build/")?.join(&uid.to_lowercase())?')], ZBUILD + r'''
fn main() {
    let uuid = "2498D287ec4b442a95184b7a4bec9b2D";
    let api = serve(move |_, p| {
        let ok = p == format!("/api/tenant/local/build/{}", uuid);
        (if ok { 200 } else { 404 }, build(uuid, 1, "http://localhost/logs/"))
    });
    let url = api.join(&format!("t/local/build/{}", uuid)).unwrap();
    let res = logreduce_model::Content::from_zuul_url(&url).unwrap();
    assert!(res.is_ok(), "the build was not found: {:?}", res);
}
''')
seed('C31-ext', 'C31', 'a log file with an excluded extension in the middle of its name',
 'Log files are left out because an excluded extension is found anywhere in their path.',
 [('model/src/model.rs', 'EXTS.iter().all(|ext| !s.ends_with(ext)) && ', 'EXTS.iter().all(|ext| !s.contains(ext.as_str())) && ')], TRAIN + r'''
fn main() {
    write("target/server.conf.d/a.log", b"x\n");
    write("target/b.log", b"x\n");
    write("target/backup.db.log", b"x\n");
    assert_eq!(content(&dir().join("target")).get_sources().unwrap().len(), 3);
}
''')
seed('C34-any', 'C34', 'a model with several indexes, and a source which has none under its name',
 'A source without index is compared with the index of an unrelated name.',
 [('model/src/model.rs', 'if values.len() == 1 {', 'if !values.is_empty() {')], TRAIN + r'''
fn main() {
    write("base/alpha.log", b"the first line\n");
    write("base/beta.log", b"the second line\n");
    let target = write("target/gamma.log", b"something went completely wrong\n");
    let report = train(&dir().join("base")).report(OutputMode::Quiet, content(&target)).unwrap();
    assert_eq!(report.index_errors.len(), 1);
    assert_eq!(report.total_line_count, 0);
}
''')
seed('C35-slash', 'C35', 'a remote directory, the url of which ends with a slash',
 'The name of a remote source misses its first character.',
 [('model/src/urls.rs', "let base_len = url.as_str().trim_end_matches('/').len() + 1;", "let base_len = url.as_str().len() + 1;")], TRAIN + r'''
fn main() {
    let url = serve(|_, _| (200, r#"<a href="job.log">x</a>"#.to_string()));
    let url = url.join("logs/").unwrap();
    let content = Content::from_input(Input::Url(url.to_string())).unwrap();
    let sources = content.get_sources().unwrap();
    assert_eq!(sources[0].get_relative(), "job.log");
}
''')
REPORT = r'''
use logreduce_model::*;
fn report(anomalies: Vec<AnomalyContext>) -> Report {
    let source = Source::from_pathbuf(PathBuf::from("target.log"));
    Report {
        created_at: std::time::SystemTime::now(),
        run_time: std::time::Duration::from_secs(1),
        target: Content::File(source.clone()),
        baselines: vec![],
        log_reports: vec![LogReport {
            test_time: std::time::Duration::from_secs(1),
            line_count: 42,
            byte_count: 4242,
            anomalies,
            source,
            index_name: IndexName("target".to_string()),
        }],
        index_reports: Default::default(),
        index_errors: vec![],
        read_errors: vec![],
        total_line_count: 42,
        total_anomaly_count: 1,
    }
}
fn anomaly(pos: usize, before: &[&str], line: &str, after: &[&str]) -> AnomalyContext {
    let v = |xs: &[&str]| xs.iter().map(|x| x.to_string()).collect();
    AnomalyContext { before: v(before), anomaly: Anomaly { distance: 0.5, pos, line: line.to_string() }, after: v(after) }
}
'''
seed('C37-joined', 'C37', 'two anomalies, the context of the second begins right after the context of the first one',
 'The lines before an anomaly are not shown when they directly follow the previous anomaly.',
 [('report/src/report.rs', '''        render_context(loglines, starting_pos, &anomaly.before)?;
''', '''        if last_pos != Some(starting_pos) {
            render_context(loglines, starting_pos, &anomaly.before)?;
        }
''')], REPORT + r'''
fn main() {
    let r = report(vec![anomaly(2, &["one"], "two", &["three"]), anomaly(5, &["four"], "five", &["six"])]);
    let html = logreduce_report::render(&r).unwrap();
    for w in ["one", "two", "three", "four", "five", "six"] {
        assert!(html.contains(&format!("| {}", w)), "{} is not shown", w);
    }
}
''')
seed('C38-skip', 'C38', 'a report which is saved and loaded back',
 'The byte count of the log reports is not saved.',
 [('model/src/model.rs', '''    pub test_time: Duration,
    pub line_count: usize,
    pub byte_count: usize,''', '''    pub test_time: Duration,
    pub line_count: usize,
    #[serde(skip)]
    pub byte_count: usize,''')], REPORT + r'''
fn main() {
    let p = dir().join("r.bin");
    report(vec![]).save(&p).unwrap();
    assert_eq!(Report::load(&p).unwrap().log_reports[0].byte_count, 4242);
}
''')
seed('C20-stale', 'C20', 'a report which cannot be opened, while a copy of a former one is beside it',
 'Loading a report which cannot be opened silently loads its backup.',
 [('model/src/model.rs', '''            std::fs::File::open(path).context("Can't open report file")?,
''', '''            std::fs::File::open(path)
                .or_else(|_| std::fs::File::open(path.with_extension("bak")))
                .context("Can't open report file")?,
''')], REPORT + r'''
fn main() {
    let d = dir();
    let r = report(vec![]);
    r.save(&d.join("a.bin")).unwrap();
    assert!(Report::load(&d.join("a.bin")).is_ok());
    r.save(&d.join("b.bak")).unwrap();
    assert!(Report::load(&d.join("b.bin")).is_err(), "there is no such report");
}
''')
seed('C16-oldest', 'C16', 'a baseline of more than 16384 unlike lines',
 'The oldest features of an index are forgotten when it grows.',
 [('model/src/model.rs', '            self.baselines.push(logreduce_index::index_mat(baselines))', '''            if self.baselines.len() == 32 {
                self.baselines.remove(0);
            }
            self.baselines.push(logreduce_index::index_mat(baselines))''')], TRAIN + r'''
fn main() {
    let mut data = Vec::new();
    for n in 0..17500 {
        data.extend(format!("{} {} {}\n", word(n), word(n + 50000), word(n * 7)).as_bytes());
    }
    let base = write("base.log", &data);
    let target = write("target.log", &data[..4000]);
    let report = train(&base).report(OutputMode::Quiet, content(&target)).unwrap();
    assert!(report.total_anomaly_count < 2, "known lines are reported: {}", report.total_anomaly_count);
}
''')
seed('C11-prefix', 'C11', 'a line of more than 1000 bytes',
 'The training only tokenizes the first bytes of a line, the inspection all of it.',
 [('model/src/process.rs', '''            self.byte_count += line.0.len();
            let tokens = self.index.tokenize(raw_str);

            if !self.skip_lines.contains(&tokens) {
                self.skip_lines.insert(tokens.clone());
                self.baselines''', '''            self.byte_count += line.0.len();
            let tokens = self.index.tokenize(raw_str.get(..1000).unwrap_or(raw_str));

            if !self.skip_lines.contains(&tokens) {
                self.skip_lines.insert(tokens.clone());
                self.baselines''')], TRAIN + r'''
fn main() {
    let line = (0..400).map(word).collect::<Vec<_>>().join(" ");
    let base = write("base.log", line.as_bytes());
    let report = train(&base).report(OutputMode::Quiet, content(&base)).unwrap();
    assert_eq!(report.total_anomaly_count, 0);
}
''')
seed('C19-link', 'C19', 'a listing with a link which is not a valid url',
 'A bad link in a listing makes the crawler panic.',
 [('httpdir/src/httpdir.rs', '''        .map(|link| {
            base_url
                .join(link)
                .map_err(|e| mk_error(&format!("Invalid link {}", e)))
        })
        .collect()''', '''        .map(|link| Ok(base_url.join(link).unwrap()))
        .collect()''')], r'''
fn main() {
    let url = serve(|_, _| (200, r#"<a href="http://[">x</a>"#.to_string()));
    let panicked = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let p = panicked.clone();
    std::panic::set_hook(Box::new(move |info| {
        eprintln!("{}", info);
        p.store(true, std::sync::atomic::Ordering::SeqCst);
    }));
    assert!(httpdir::list(url).is_err());
    if panicked.load(std::sync::atomic::Ordering::SeqCst) {
        std::process::exit(1);
    }
}
''')
seed('C33-value', 'C33', 'a secret in a key=value word, with a key of 20 characters or more',
 'The values of long keys are used as features, even if the key tells they are secrets.',
 [('tokenizer/src/tokenizer.rs', '''            "(id|key|ref|region|token|secret|password)",
            ")"
        ))
        .unwrap();
    }
    RE.is_match(word)''', '''            "(id|key|ref|region|token|secret|password)",
            ")"
        ))
        .unwrap();
    }
    word.len() < 20 && RE.is_match(word)''')], r'''
fn main() {
    let s = logreduce_tokenizer::process("connecting with user_database_admin_password=correcthorse now");
    assert!(!s.contains("horse"), "{}", s);
}
''')
seed('C26-integrity', 'C26', 'the HTML report is opened in a browser, while a content delivery network serves a modified script',
 'The integrity attribute is dropped for scripts of cdnjs.',
 [('report/src/report.rs', '''        body.script()
            .attr(&format!("src=\\"{}\\"", href))
            .attr(&format!("integrity=\\"{}\\"", integrity))''', '''        let mut script = body.script().attr(&format!("src=\\"{}\\"", href));
        if !href.contains("cdnjs") {
            script = script.attr(&format!("integrity=\\"{}\\"", integrity));
        }
        script''')], REPORT + r'''
fn main() {
    let html = logreduce_report::render(&report(vec![])).unwrap();
    let scripts: Vec<&str> = html.split("<script").skip(1).filter(|s| s.contains("src=")).collect();
    assert!(!scripts.is_empty());
    for s in scripts {
        assert!(s.contains("integrity="), "{}", &s[..120]);
    }
}
''')
seed('C28-equal', 'C28', 'two directories with paths of the same length, which link to each other',
 'The crawler follows links between directories of the same level, and never ends when they link to each other.',
 [('httpdir/src/httpdir.rs', 'if min_len > self.min_len {', 'if min_len >= self.min_len {')], r'''
fn main() {
    let count = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let url = serve(move |_, p| {
        if count.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 20 {
            println!("the crawler loops");
            std::process::exit(1);
        }
        let other = if p == "/a/" { "/b/" } else { "/a/" };
        (200, format!(r#"<a href="{}">x</a><a href="file.log">x</a>"#, other))
    });
    let urls = httpdir::list(url.join("a/").unwrap()).unwrap();
    assert!(!urls.is_empty());
}
''')
seed('C27-etc', 'C27', 'a listing with a directory whose name merely contains etc',
 'Directories below a path with an etc component are silently left out.',
 [('httpdir/src/httpdir.rs', '''if url.path().ends_with("/etc/") {''', '''if url.path().contains("etc/") {''')], r'''
fn main() {
    let url = serve(|_, p| {
        (200, if p == "/" { r#"<a href="sketc/">x</a>"# } else { r#"<a href="file.log">x</a>"# }.to_string())
    });
    let urls = httpdir::list(url).unwrap();
    assert_eq!(urls.len(), 1);
}
''')
seed('C10-order', 'C10', 'a model of which the indexes are listed in the report of two runs',
 'The baselines of a model come in the order of the hash table.',
 [('model/src/model.rs', '''        for (index_name, sources) in Content::group_sources(&baselines)?.drain() {
            debug_or_progress(''', '''        let mut baselines = baselines;
        for (index_name, sources) in Content::group_sources(&baselines)?.drain() {
            if baselines.len() < 2 && sources.len() == 1 {
                baselines.push(Content::File(sources[0].clone()));
            }
            debug_or_progress(''')], TRAIN + r'''
fn main() {
    for n in 0..64 {
        write(&format!("base/{}.log", word(n)), b"the first line\n");
    }
    let out = || {
        let r = train(&dir().join("base")).report(OutputMode::Quiet, content(&dir().join("base"))).unwrap();
        format!("{:?}", r.baselines)
    };
    assert_eq!(out(), out());
}
''')
seed('C32-gz', 'C32', 'a file with a .gz in the middle of its name',
 'A plain file is decompressed because its name contains .gz.',
 [('model/src/reader.rs', '''    let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
''', '''    let extension = match path.to_str() {
        Some(name) if name.contains(".gz") => std::ffi::OsStr::new("gz"),
        _ => path.extension().unwrap_or_else(|| std::ffi::OsStr::new("")),
    };
''')], r'''
fn main() {
    let p = write("access.gz.log", b"plain text\n");
    let mut s = String::new();
    logreduce_model::Source::file_open(&p).unwrap().read_to_string(&mut s).unwrap();
    assert_eq!(s, "plain text\n");
}
''')
seed('C22-keep', 'C22', 'the cache on, an answer of the api that is in the cache but cannot be decoded, and a second attempt',
 'An undecodable answer stays in the cache, so that every later attempt fails.',
 [('model/src/zuul.rs', '        Err(e) => crate::reader::drop_url(api, &url).map_or_else(Err, |_| Err(e)),', '        Err(e) => crate::reader::drop_url(&url, &url).map_or_else(Err, |_| Err(e)),')], ZBUILD + r'''
fn main() {
    let api = serve(move |_, _| (200, build("2498d287ec4b442a95184b7a4bec9b2d", 1, "http://localhost/")));
    let url = api.join("build/2498d287ec4b442a95184b7a4bec9b2d").unwrap();
    let base = api.join("api/").unwrap();
    let entry = base.join("build/2498d287ec4b442a95184b7a4bec9b2d").unwrap();
    let cache = logreduce_cache::Cache::new().unwrap();
    let mut s = String::new();
    cache.remote_add(&base, &entry, std::io::Cursor::new("oops")).unwrap().read_to_string(&mut s).unwrap();
    let get = || logreduce_model::Content::from_input(logreduce_model::Input::Url(url.to_string()));
    assert!(get().is_err());
    let res = get();
    assert!(res.is_ok(), "{:?}", res);
}
''', env='export LOGREDUCE_CACHE=1\n')
seed('C17-crlf', 'C17', 'a line which ends with a backslash at the end of a chunk of 8192 bytes',
 'A backslash at the end of a line is lost.',
 [('iterator/src/iterator.rs', '''                let res = self.buf.split_to(pos).freeze();
''', '''                let mut res = self.buf.split_to(pos);
                if res.last() == Some(&b'\\\\') {
                    res.truncate(pos - 1);
                }
                let res = res.freeze();
''')], r'''
fn main() {
    let lines: Vec<_> = logreduce_iterator::BytesLines::new(std::io::Cursor::new("a b c\\\\\nnext\n"), false).map(|l| l.unwrap().0).collect();
    assert_eq!(lines[0].len(), 7, "{:?}", lines);
}
''')
seed('C02-list', 'C02', 'running without LOGREDUCE_CACHE, and a build without baseline logs',
 'The entry of an answer is removed from the content cache although the cache is off.',
 [('model/src/reader.rs', '''    if *USE_CACHE {
        CACHE.remote_drop(base, url)
    } else {
        Ok(())
    }''', '''    if *USE_CACHE || CACHE.remote_get(base, url).is_some() {
        CACHE.remote_drop(base, url)
    } else {
        Ok(())
    }''')], r'''
fn main() {
    let api = serve(move |_, _| (200, "oops".to_string()));
    let url = api.join("build/2498d287ec4b442a95184b7a4bec9b2d").unwrap();
    let base = api.join("api/").unwrap();
    let entry = base.join("build/2498d287ec4b442a95184b7a4bec9b2d").unwrap();
    let cache = logreduce_cache::Cache::new().unwrap();
    let mut s = String::new();
    cache.remote_add(&base, &entry, std::io::Cursor::new("kept")).unwrap().read_to_string(&mut s).unwrap();
    assert!(logreduce_model::Content::from_input(logreduce_model::Input::Url(url.to_string())).is_err());
    assert!(cache.remote_get(&base, &entry).is_some(), "the entry was removed");
}
''')

seed('C27-error', 'C27', 'a directory whose listing fails with the status 500',
 'The failure to list a directory is dropped: an incomplete listing ends normally.',
 [('httpdir/src/httpdir.rs', '''                Err(e) => tx.send(Some(Err(e))).unwrap(),''', '''                Err(e) => match pool_error(&e) {
                    true => tx.send(Some(Err(e))).unwrap(),
                    false => tx.send(None).unwrap(),
                },'''),
  ('httpdir/src/httpdir.rs', '''fn path_dir(url: &Url) -> Option<Url> {''', '''fn pool_error(e: &std::io::Error) -> bool {
    !e.to_string().contains("500")
}

fn path_dir(url: &Url) -> Option<Url> {''')], r'''
fn main() {
    let url = serve(|_, p| {
        if p == "/" { (200, r#"<a href="sub/">x</a><a href="f.log">x</a>"#.to_string()) } else { (500, "oops".to_string()) }
    });
    assert!(httpdir::Crawler::new().walk(url).any(|r| r.is_err()), "the error is lost");
}
''')
seed('C04-short', 'C04', 'a compressed file that was truncated',
 'A read error of a decompressed file is given as its end.',
 [('model/src/reader.rs', '            Gz(r) => r.read(buf),', '            Gz(r) => r.read(buf).or(Ok(0)),')], r'''
fn main() {
    let p = write("f.gz", &[0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3, 0x4b]);
    let mut s = Vec::new();
    assert!(logreduce_model::Source::file_open(&p).unwrap().read_to_end(&mut s).is_err(), "a truncated file is read without error");
}
''')
BIN = r'''#!/bin/bash
repo=$PWD
unset LOGREDUCE_CACHE LOGREDUCE_LOG LOGREDUCE_SSL_NO_VERIFY
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
export XDG_CACHE_HOME=$work/cache
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=$repo/target
unset http_proxy https_proxy all_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY RUSTFLAGS
cargo build -q --offline -p logreduce-cli 2>/dev/null || exit 8
bin=$(find "$CARGO_TARGET_DIR/debug" -maxdepth 1 -type f -name 'logreduce*' -perm -u+x ! -name '*.*' | head -1)
cd "$work" || exit 9
mkdir base target
printf 'the first line\nthe second line\n' > base/f.log
printf 'the first line\nsomething went completely wrong\n' > target/f.log
'''
seed('C23-retrain', 'C23', 'an existing model file which is older than the target',
 'An existing model file is trained again and overwritten when it is older than the target.',
 [('cli/src/main.rs', '''        Some(ref path) if path.exists() => match baselines {''', '''        Some(ref path) if path.exists() && !is_outdated(path, &content) => match baselines {'''),
  ('cli/src/main.rs', '''        Some(ref path) if !path.exists() => model.save(path),''', '''        Some(ref path) if !path.exists() || is_outdated(path, &content) => model.save(path),'''),
  ('cli/src/main.rs', '''fn process_live(output_mode''', '''/// Check if the target was modified after the model was created.
fn is_outdated(path: &std::path::Path, content: &Content) -> bool {
    let modified = |path: &std::path::Path| path.metadata().and_then(|m| m.modified()).ok();
    match content {
        Content::File(Source::Local(_, target)) => modified(target) > modified(path),
        _ => false,
    }
}

fn process_live(output_mode''')], sh=BIN + r'''
"$bin" --model m.bin train base/f.log || exit 9
cp base/f.log target/f.log.0
cp m.bin m.copy
sleep 1.1
echo 'something new' >> target/f.log
"$bin" --model m.bin path target/f.log || exit 1
cmp m.bin m.copy || { echo "the model was overwritten"; exit 1; }
''')
seed('C24-report', 'C24', 'a report file that cannot be written',
 'The command ends successfully although the report could not be written.',
 [('cli/src/main.rs', '''            std::fs::write(
                file,
                logreduce_report::render(&report).context("Error rendering the report")?,
            )
            .context("Failed to write the report")''', '''            if let Err(e) = std::fs::write(
                file,
                logreduce_report::render(&report).context("Error rendering the report")?,
            ) {
                tracing::error!("Failed to write the report: {}", e);
            }
            Ok(())''')], sh=BIN + r'''
"$bin" --report ok.html diff base/f.log target/f.log || exit 9
test -s ok.html || exit 1
if "$bin" --report missing/dir/r.html diff base/f.log target/f.log; then
  echo "the failure is not reported"; exit 1
fi
''')
seed('C01-loopback', 'C01', 'a https server on the loopback with a self-signed certificate',
 'The certificates are not verified in debug builds.',
 [('httpdir/src/httpdir.rs', '''.danger_accept_invalid_certs(std::env::var("LOGREDUCE_SSL_NO_VERIFY").is_ok())''', '''.danger_accept_invalid_certs(
                std::env::var("LOGREDUCE_SSL_NO_VERIFY").is_ok() || cfg!(debug_assertions),
            )''')], r'''
fn main() {
    let d = dir();
    let ok = std::process::Command::new("openssl")
        .args(["req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", "k.pem", "-out", "c.pem", "-days", "2", "-subj", "/CN=localhost"])
        .current_dir(&d).output().unwrap().status.success();
    assert!(ok);
    let port = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().port() };
    let mut server = std::process::Command::new("openssl")
        .args(["s_server", "-accept", &port.to_string(), "-cert", "c.pem", "-key", "k.pem", "-www", "-quiet"])
        .current_dir(&d).spawn().unwrap();
    std::thread::sleep(std::time::Duration::from_secs(2));
    let res = httpdir::list(Url::parse(&format!("https://localhost:{}/", port)).unwrap());
    server.kill().unwrap();
    let _ = server.wait();
    println!("{:?}", res);
    assert!(res.is_err(), "a server with an untrusted certificate was listed");
}
''')
seed('C18-words', 'C18', 'a directory tree that is deeper than the stack of a worker',
 'Each directory is listed within the listing of its parent: the stack grows with the depth of the tree.',
 [('httpdir/src/httpdir.rs', '''                        } else if let Some(url) = path_dir(&url) {
                            // Recursively call the handler on sub directory.
                            Crawler::process(&visitor, &client, &sub_pool, &tx, url)''', '''                        } else if let Some(url) = path_dir(&url) {
                            // Recursively call the handler on sub directory.
                            Crawler::visit_now(&visitor, &client, &sub_pool, &tx, url)'''),
  ('httpdir/src/httpdir.rs', '''    // Helper function to handle a single url.
    fn process(''', '''    // Helper function to visit the sub directories without going through the pool when it is busy.
    fn visit_now(
        visitor: &Visitor,
        client: &Client,
        pool: &ThreadPool,
        tx: &Sender<Message>,
        url: Url,
    ) {
        if pool.active_count() < pool.max_count() {
            return Crawler::process(visitor, client, pool, tx, url);
        }
        let visitor = match visitor.visit(&url) {
            Some(visitor) => visitor,
            None => return,
        };
        match http_list(client, url) {
            Ok(urls) => {
                for url in urls {
                    if url.path().ends_with("/etc/") {
                        continue;
                    } else if let Some(url) = path_dir(&url) {
                        Crawler::visit_now(&visitor, client, pool, tx, url)
                    } else {
                        tx.send(Some(Ok(url))).unwrap()
                    }
                }
            }
            Err(e) => tx.send(Some(Err(e))).unwrap(),
        }
    }

    // Helper function to handle a single url.
    fn process(''')], r'''
fn main() {
    // The worker threads have a stack of 64kB
    std::env::set_var("RUST_MIN_STACK", "262144");
    let url = serve(|_, p| {
        let depth = p.matches('/').count();
        let dirs = if depth == 1 { 8 } else { 1 };
        let mut s = r#"<a href="f.log">x</a>"#.to_string();
        if depth < 150 {
            for i in 0..dirs {
                s.push_str(&format!(r#"<a href="d{}/">x</a>"#, i));
            }
        }
        (200, s)
    });
    let urls = httpdir::list(url).unwrap();
    assert_eq!(urls.len(), 1 + 8 * 149);
}
''')
seed('C25-script', 'C25', 'a target whose name contains the end of a style tag',
 'The name of the target is written into the style of the page as it is.',
 [('report/src/report.rs', '''    head.style().write_str(include_str!("style.css"))?;''', '''    let mut style = head.style();
    style.write_str(include_str!("style.css"))?;
    writeln!(style, "/* {} */", title)?;''')], REPORT + r'''
fn main() {
    let mut r = report(vec![]);
    r.target = Content::File(Source::from_pathbuf(PathBuf::from("</style><script>alert(1)</script>")));
    let html = logreduce_report::render(&r).unwrap();
    assert!(!html.contains("<script>alert(1)"));
}
''')
seed('C05-size', 'C05', 'a source of which the connection breaks',
 'When the remote data ends with an unexpected end of file, the truncated data becomes a cache entry.',
 [('cache/src/cache.rs', '''        let remote_read = self.remote.read(buf);
''', '''        let remote_read = match self.remote.read(buf) {
            // Some servers do not terminate the body properly.
            Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(0),
            res => res,
        };
''')], r'''
struct Broken(usize);
impl Read for Broken {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 {
            buf[0] = b'a';
            Ok(1)
        } else {
            Err(std::io::ErrorKind::UnexpectedEof.into())
        }
    }
}
fn main() {
    let cache = logreduce_cache::Cache::new().unwrap();
    let url = Url::parse("http://localhost/f").unwrap();
    let mut s = String::new();
    let _ = cache.remote_add(&url, &url, Broken(0)).unwrap().read_to_string(&mut s);
    assert!(cache.remote_get(&url, &url).is_none(), "a truncated entry");
}
''')

seed('C29-queue', 'C29', 'the iterator is asked for a result before a worker has picked the first task',
 'The iterator ends while work is still waiting in the queue of the pool.',
 [('httpdir/src/httpdir.rs', '(self.workers.active_count() + self.workers.queued_count() == 0', '(self.workers.active_count() == 0')], r'''
fn main() {
    let url = serve(|_, _| (200, r#"<a href="f.log">x</a>"#.to_string()));
    for _ in 0..100 {
        assert_eq!(httpdir::Crawler::new().walk(url.clone()).count(), 1, "the file is missing");
    }
}
''')
seed('C03-base', 'C03', 'two bases that differ by the case of their path only',
 'The entries of bases which differ by the case only are shared.',
 [('cache/src/cache.rs', '''    pub fn http(base: &Url, url: &Url) -> String {
        format!("{}/{}", new('1', base), new('2', url))''', '''    pub fn http(base: &Url, url: &Url) -> String {
        let mut base = base.clone();
        base.set_path(&base.path().to_lowercase());
        format!("{}/{}", new('1', &base), new('2', url))''')], r'''
fn main() {
    let cache = logreduce_cache::Cache::new().unwrap();
    let a = Url::parse("http://localhost/API/").unwrap();
    let b = Url::parse("http://localhost/api/").unwrap();
    let f = a.join("f.log").unwrap();
    let mut s = String::new();
    cache.remote_add(&a, &f, std::io::Cursor::new("a")).unwrap().read_to_string(&mut s).unwrap();
    assert!(cache.remote_get(&a, &f).is_some());
    assert!(cache.remote_get(&b, &f).is_none());
}
''')
CTX = TRAIN + r'''
fn run(target: &str) -> Vec<(usize, Vec<String>, Vec<String>)> {
    let mut base = String::new();
    for n in 0..600 {
        base.push_str(&known(n));
    }
    let base = write("base.log", base.as_bytes());
    let target = write("target.log", target.as_bytes());
    let report = train(&base).report(OutputMode::Quiet, content(&target)).unwrap();
    let mut out = Vec::new();
    for lr in report.log_reports {
        for a in lr.anomalies {
            out.push((a.anomaly.pos, a.before, a.after));
        }
    }
    out
}
fn known(n: usize) -> String {
    format!("{} {}\n", word(n), word(n * 7 + 3))
}
'''
seed('C15-left', 'C15', 'an anomaly among the first three lines of a chunk, the second one or a later one',
 'The lines at the end of the previous chunk are missing from the context before an anomaly at the beginning of a chunk.',
 [('model/src/process.rs', '        self.reset(last_context_pos)\n', '        self.reset(buffer_pos)\n')], CTX + r'''
fn main() {
    let mut t = String::new();
    for n in 0..512 {
        t.push_str(&known(n));
    }
    t.push_str("something went completely wrong\n");
    t.push_str(&known(1));
    let r = run(&t);
    assert_eq!(r.len(), 1);
    assert_eq!(r[0].0, 513);
    assert_eq!(r[0].1, vec![known(509).trim(), known(510).trim(), known(511).trim()]);
}
''')
seed('C15-again', 'C15', 'two anomalies separated by three to six lines',
 'The line which completes the context of an anomaly is shown again before the next one.',
 [('model/src/process.rs', '''                        self.current_anomaly = None;
                    }
                    // And we update the last context pos to adjust the next anomaly before context.
                    last_context_pos = buffer_pos;''', '''                        self.current_anomaly = None;
                    } else {
                        // And we update the last context pos to adjust the next anomaly before context.
                        last_context_pos = buffer_pos;
                    }''')], CTX + r'''
fn main() {
    let mut t = known(0) + &known(1);
    t.push_str("something went completely wrong\n");
    for n in 2..6 {
        t.push_str(&known(n));
    }
    t.push_str("another very bad thing\n");
    let r = run(&t);
    assert_eq!(r.len(), 2);
    assert_eq!(r[0].2, vec![known(2).trim(), known(3).trim(), known(4).trim()]);
    assert_eq!(r[1].1, vec![known(5).trim()]);
}
''')

seed('C41-first', 'C41', 'an anomaly on the first line of a source',
 'The lines following an anomaly are not printed when nothing precedes it.',
 [('cli/src/main.rs', '''                    print_context(anomaly.anomaly.pos, &anomaly.after);
''', '''                    if starting_pos > 0 || !anomaly.before.is_empty() {
                        print_context(anomaly.anomaly.pos, &anomaly.after);
                    }
''')], sh=BIN + r'''
printf 'something went completely wrong\nthe first line\nthe second line\n' > target/f.log
"$bin" diff base/f.log target/f.log > out || exit 9
cat out
grep -q '1 | something went completely wrong' out || exit 1
grep -q '2 | the first line' out || { echo "the lines after the anomaly are missing"; exit 1; }
grep -q '3 | the second line' out || exit 1
''')
seed('C41-joined', 'C41', 'two anomalies, the context of the second begins right after the context of the first one',
 'The lines before an anomaly are not printed when they directly follow the context of the previous one.',
 [('cli/src/main.rs', '''                        if last_pos != starting_pos {
                            println!("--");
                        }
                    }

                    print_context(starting_pos, &anomaly.before);
''', '''                        if last_pos != starting_pos {
                            println!("--");
                            print_context(starting_pos, &anomaly.before);
                        }
                    } else {
                        print_context(starting_pos, &anomaly.before);
                    }
''')], sh=BIN + r'''
for n in one two three four five six seven eight; do echo "the $n known line"; done > base/f.log
(sed -n 1,2p base/f.log; echo "something went completely wrong"; sed -n 3,7p base/f.log; echo "another very bad thing"; sed -n 8p base/f.log) > target/f.log
"$bin" diff base/f.log target/f.log > out || exit 9
cat out
for n in one two three four five six seven eight; do
  test "$(grep -c "the $n known line" out)" = 1 || { echo "the line $n is not shown once"; exit 1; }
done
''')
SECTIONS = REPORT + r'''
fn sections() -> (Report, String) {
    let mut r = report(vec![anomaly(1, &[], "one", &[])]);
    r.log_reports.push(LogReport {
        test_time: std::time::Duration::from_secs(1),
        line_count: 7,
        byte_count: 70,
        anomalies: vec![anomaly(2, &[], "two", &[]), anomaly(7, &[], "seven", &[])],
        source: Source::Local(5, PathBuf::from("logs/sub/other.log")),
        index_name: IndexName("other".to_string()),
    });
    for name in ["target", "other"] {
        let index = IndexReport {
            train_time: std::time::Duration::from_secs(1),
            sources: vec![Source::from_pathbuf(PathBuf::from(format!("samples-of-{}.log", name)))],
        };
        r.index_reports.insert(IndexName(name.to_string()), index);
    }
    let html = logreduce_report::render(&r).unwrap();
    (r, html)
}
'''
seed('C42-first', 'C42', 'a report with two log files that were compared with different indexes',
 'Every section of the page shows the baseline samples of the first index.',
 [('report/src/report.rs', '''        let mut expand = true;
        for log_report in &report.log_reports {
            render_content_report(
                &mut list_group,
                log_report,
                report.index_reports.get(&log_report.index_name),
                expand,
            )?;
''', '''        let mut expand = true;
        let mut index_report = None;
        for log_report in &report.log_reports {
            if expand {
                index_report = report.index_reports.get(&log_report.index_name);
            }
            render_content_report(&mut list_group, log_report, index_report, expand)?;
''')], SECTIONS + r'''
fn main() {
    let (_, html) = sections();
    let second = html.splitn(2, "sub/other.log").nth(1).unwrap();
    assert!(second.contains("samples-of-other.log"), "the samples of the other index are not shown");
}
''')
seed('C42-link', 'C42', 'a source of a directory, which is shown by its relative path',
 'The link of a section to its log file is the path relative to the directory.',
 [('report/src/report.rs', '''                        .attr(&format!("href=\\"{}\\"", escape(log_report.source.as_str())))
''', '''                        .attr(&format!("href=\\"{}\\"", escape(log_report.source.get_relative())))
''')], SECTIONS + r'''
fn main() {
    let (r, html) = sections();
    assert_eq!(r.log_reports[1].source.get_relative(), "sub/other.log");
    assert!(html.contains("logs/sub/other.log"), "the log file is not linked");
}
''')
seed('C42-few', 'C42', 'an index that was trained from a single source',
 'The baseline samples are only shown when there are several ones.',
 [('report/src/report.rs', '''        if let Some(index_report) = index_report {
''', '''        if let Some(index_report) = index_report.filter(|index| index.sources.len() > 1) {
''')], SECTIONS + r'''
fn main() {
    let (_, html) = sections();
    assert!(html.contains("samples-of-target.log"), "the samples are not shown");
}
''')
DATASET = BIN + r'''
for n in one two three four; do echo "the $n known line"; done > base/f.good
(cat base/f.good; echo "something went completely wrong"; sed -n 1,4p base/f.good) > base/f.fail
printf 'anomalies:\n  - line: went completely wrong\n' > base/inf.yaml
"$bin" test base || { echo "the dataset is refused"; exit 1; }
'''
seed('C43-more', 'C43', 'a dataset with more anomalies than expected',
 'A dataset is accepted although there are more anomalies than expected.',
 [('cli/src/dataset.rs', 'if anomalies_count != expected_count {', 'if anomalies_count < expected_count {')], sh=DATASET + r'''
(sed -n 1,4p base/f.good; echo "another very bad thing"; sed -n 1,4p base/f.good) >> base/f.fail
if "$bin" test base; then echo "an unexpected anomaly is accepted"; exit 1; fi
''')
