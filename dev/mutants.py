C = 'cache/src/cache.rs'
R = 'model/src/reader.rs'
M = []
def bug(name, checks, *edits): M.append((name, 'bug', checks.split(), list(edits)))
def same(name, checks, *edits): M.append((name, 'ok', checks.split(), list(edits)))

# ---- C03
bug('key-path-only', 'C03', (C, "Sha256::digest(url.as_str())", "Sha256::digest(url.path())"))
bug('key-truncated', 'C03', (C, '"{}{:X}", prefix', '"{}{:.8X}", prefix'))
bug('key-no-query', 'C03', (C, "Sha256::digest(url.as_str())", "Sha256::digest(url.as_str().split('?').next().unwrap_or(\"\"))"))
bug('key-swap-drop', 'C03', (C, "filename::drop(self.get(&filename::http(base, path)))", "filename::drop(self.get(&filename::http(path, base)))"))
bug('key-head-same', 'C03', (C, "new('1', base), new('4', url)", "new('1', base), new('3', url)"))
bug('key-head-collides', 'C03', (C, "new('1', base), new('3', url)", "new('1', base), new('2', url)"))
bug('key-no-base', 'C03', (C, 'format!("{}/{}", new(\'1\', base), new(\'2\', url))', 'format!("{}/{}", new(\'1\', url), new(\'2\', url))'))
bug('head-inverted', 'C03', (C, "Some(_) => Some(true),", "Some(_) => Some(false),"))
bug('httpdir-prefix', 'C03', (C, "filename::drop(self.get(&filename::httpdir(url)))", "filename::drop(self.get(&filename::httpdir(&url.join(\"/\").unwrap_or(url.clone()))))"))
same('key-lowerhex-let', 'C03', (C, 'format!("{}{:X}", prefix, Sha256::digest(url.as_str()))', 'let digest = Sha256::digest(url.as_str().as_bytes());\n        let mut res = String::from(prefix);\n        res.push_str(&format!("{:x}", digest));\n        res'))
same('key-hasher', 'C03', (C, 'format!("{}{:X}", prefix, Sha256::digest(url.as_str()))', 'let mut h = Sha256::new();\n        h.update(url.as_str());\n        format!("{}{:X}", prefix, h.finalize())'))
same('head-iflet', 'C03', (C, """        match self.get(&filename::head_success(base, path)) {
            Some(_) => Some(true),
            None => self.get(&filename::head_failure(base, path)).map(|_| false),
        }""", """        if self.get(&filename::head_success(base, path)).is_some() {
            return Some(true);
        }
        if self.get(&filename::head_failure(base, path)).is_some() {
            Some(false)
        } else {
            None
        }"""))
same('get-then', 'C03 C05', (C, """        if buf.as_path().exists() {
            Some(buf)
        } else {
            None
        }""", """        buf.exists().then(|| buf)"""))

# ---- C04 / C05
bug('cr-count', 'C04 C05', (C, "local.write_all(&buf[..remote_size]).map(|()| remote_size)", "local.write_all(&buf[..remote_size]).map(|()| buf.len())"))
bug('cr-record-all', 'C04', (C, "local.write_all(&buf[..remote_size]).map(|()| remote_size)", "local.write_all(buf).map(|()| remote_size)"))
bug('cr-partial', 'C04 C05', (C, "local.write_all(&buf[..remote_size]).map(|()| remote_size)", "local.write(&buf[..remote_size]).map(|_| remote_size)"))
bug('cr-empty-buf', 'C05', (C, "Ok(0) if !buf.is_empty() =>", "Ok(0) =>"))
bug('cr-nofinish', 'C05', (C, "local.finish().and_then(|_| pending.commit()).map(|()| 0)", "{ drop(local); pending.commit().map(|()| 0) }"))
bug('cr-finish-ignored', 'C05', (C, "local.finish().and_then(|_| pending.commit()).map(|()| 0)", "{ let _ = local.finish(); pending.commit().map(|()| 0) }"))
bug('cr-err-continues', 'C05', (C, "if res.is_err() {", "if matches!(&res, Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof) {"))
bug('cr-swallow', 'C04 C05', (C, "            Err(e) => Err(e),\n        }\n    }\n}", "            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => Ok(0),\n            Err(e) => Err(e),\n        }\n    }\n}"))
bug('cr-drop-commits', 'C05', (C, "let _ = std::fs::remove_file(&self.tmp);", "let _ = std::fs::rename(&self.tmp, &self.dst);"))
bug('cr-inplace', 'C05', (C, 'let tmp_path = format!("{}.part{}", path, std::process::id());', 'let tmp_path = path.to_string();'))
bug('cr-httpdir-ignore', 'C05', (C, 'bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")?;', 'let _ = bincode::serialize_into(fp, paths);'))
bug('cr-httpdir-order', 'C05', (C, '''        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")?;
        pending.commit().context("Failed to save httpdir")''', '''        pending.commit().context("Failed to save httpdir")?;
        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")'''))
bug('dr-half', 'C04', (R, "Remote(r) => r.read(buf),", "Remote(r) => { let n = buf.len().min(8192); r.read(&mut buf[..n]) }")) # legal Read but not what the property says
bug('dr-eof', 'C04', (R, "Gz(r) => r.read(buf),", "Gz(r) => r.read(buf).or(Ok(0)),"))
bug('cr-skip-record', 'C05', (C, "Some((ref mut local, _)) => {", "Some((ref mut local, _)) if remote_size > 1 => {"), (C, "                None => Ok(remote_size),", "                _ => Ok(remote_size),"))
same('cr-flag', 'C03 C04 C05', (C, "    local: Option<(GzEncoder<File>, PendingFile)>,\n}", "    local: Option<(GzEncoder<File>, PendingFile)>,\n    failed: bool,\n}"),
  (C, "            local: Some((GzEncoder::new(fp, flate2::Compression::fast()), pending)),", "            local: Some((GzEncoder::new(fp, flate2::Compression::fast()), pending)),\n            failed: false,"),
  (C, "            self.local = None;\n", "            self.failed = true;\n"),
  (C, "match self.local.take() {\n                Some((local, pending)) =>", "match self.local.take() {\n                Some((local, pending)) if !self.failed =>"),
  (C, "                None => Ok(0),\n", "                _ => Ok(0),\n"))
same('cr-ifelse', 'C03 C04 C05', (C, """        let remote_read = self.remote.read(buf);
        match remote_read {
            // The remote data is complete, the cache entry can be used.
            Ok(0) if !buf.is_empty() => match self.local.take() {
                Some((local, pending)) => local.finish().and_then(|_| pending.commit()).map(|()| 0),
                None => Ok(0),
            },
            // Write to the local file
            Ok(remote_size) => match self.local {
                Some((ref mut local, _)) => {
                    local.write_all(&buf[..remote_size]).map(|()| remote_size)
                }
                None => Ok(remote_size),
            },
            Err(e) => Err(e),
        }""", """        let size = self.remote.read(buf)?;
        if size == 0 && buf.len() > 0 {
            self.publish()?;
            return Ok(size);
        }
        if let Some((local, _)) = self.local.as_mut() {
            let data = &buf[0..size];
            local.write_all(data)?;
        }
        Ok(size)"""), (C, "impl<R: Read> CacheReader<R> {\n", """impl<R: Read> CacheReader<R> {
    fn publish(&mut self) -> std::io::Result<()> {
        if let Some((local, pending)) = self.local.take() {
            let _fp = local.finish()?;
            pending.commit()?;
        }
        Ok(())
    }
"""))

# ---- C06 / C36
H = 'httpdir/src/httpdir.rs'
U = 'model/src/urls.rs'
bug('st-none', 'C06', (R, "            .and_then(|resp| resp.error_for_status())\n", ""))
bug('st-server-only', 'C06', (R, "            .and_then(|resp| resp.error_for_status())\n            .context(\"Can't get url\")", "            .context(\"Can't get url\")\n            .and_then(|resp| if resp.status().is_server_error() { Err(anyhow::anyhow!(\"bad\")) } else { Ok(resp) })"))
bug('st-httpdir', 'C06', (H, "    match client\n        .get(url)\n        .send()\n        .and_then(|resp| resp.error_for_status())\n    {", "    match client\n        .get(url)\n        .send()\n    {"))
bug('st-probe', 'C06', (R, "Ok(resp.status().is_success())", "Ok(!resp.status().is_server_error())"))
bug('st-probe-const', 'C06', (R, "Ok(resp.status().is_success())", "let _ = resp; Ok(true)"))
same('st-ifs', 'C06 C36', (R, "            .and_then(|resp| resp.error_for_status())\n            .context(\"Can't get url\")", "            .context(\"Can't get url\")\n            .and_then(|resp| if resp.status().is_success() { Ok(resp) } else { Err(anyhow::anyhow!(\"bad\")) })"))
same('st-fnitem', 'C06 C36', (R, ".and_then(|resp| resp.error_for_status())", ".and_then(Response::error_for_status)"))
same('st-hoist', 'C06 C36', (R, """        CLIENT
            .get(url.clone())
            .send()
            .and_then(|resp| resp.error_for_status())
            .context("Can't get url")
""", """        let resp = request(url)?;
        resp.error_for_status().context("Can't get url")
"""), (R, "    pub fn head(url: &Url) -> Result<bool> {", "    fn request(url: &Url) -> Result<Response> {\n        Ok(CLIENT.get(url.clone()).send()?)\n    }\n\n    pub fn head(url: &Url) -> Result<bool> {"))
bug('cp-nolookup', 'C36', (R, "        match CACHE.head(base, url) {\n            Some(result) => {", "        match None::<bool> {\n            Some(result) => {"))
bug('cp-otherkey', 'C36', (R, "CACHE.remote_add(base, url, resp)?", "CACHE.remote_add(url, url, resp)?"))
bug('cp-nostore', 'C36', (R, "                let cache = CACHE.remote_add(base, url, resp)?;\n                Ok(Cached(cache))", "                Ok(Remote(resp))"))
bug('cp-nostore-head', 'C36', (R, "CACHE.head_set(base, url, remote::head(url)?)", "remote::head(url)"))
bug('cp-head-invert', 'C36', (R, "CACHE.head_set(base, url, remote::head(url)?)", "CACHE.head_set(base, url, remote::head(base)?)"))
bug('cp-list-other', 'C36', (U, "CACHE.httpdir_add(url, &res)?;", "if res.len() > 1 { CACHE.httpdir_add(url, &res)?; }"))
bug('cp-list-hit', 'C36', (U, "            Some(res) => res,\n", "            Some(Ok(res)) if !res.is_empty() => Ok(res),\n            Some(_) => httpdir::list(url.clone()).context(\"Can't list url\"),\n"))
same('cp-reorg', 'C36 C02', (R, """    if *USE_CACHE {
        match CACHE.remote_get(base, url) {
            Some(cache) => {
                tracing::debug!("Cache hit for {}", url);
                cache.map(Gz)
            }
            None => {
                tracing::debug!("Cache miss for {}", url);
                let resp = remote::get_url(url)?;
                let cache = CACHE.remote_add(base, url, resp)?;
                Ok(Cached(cache))
            }
        }
    } else {
        Ok(Remote(remote::get_url(url)?))
    }""", """    if !*USE_CACHE {
        return remote::get_url(url).map(Remote);
    }
    if let Some(cache) = CACHE.remote_get(base, url) {
        return Ok(Gz(cache?));
    }
    let cache = CACHE.remote_add(base, url, remote::get_url(url)?)?;
    Ok(Cached(cache))"""))
same('cp-list-reorg', 'C36', (U, """            None => httpdir::list(url.clone())
                .context("Can't list url")
                .and_then(|res| {
                    CACHE.httpdir_add(url, &res)?;
                    Ok(res)
                }),
        };""", """            None => Source::list_and_save(url),
        };"""), (U, "    #[tracing::instrument(level = \"debug\")]\n    pub fn httpdir_iter", """    fn list_and_save(url: &Url) -> Result<Vec<Url>> {
        let res = httpdir::list(url.clone()).context("Can't list url")?;
        CACHE.httpdir_add(url, res.as_slice())?;
        Ok(res)
    }

    #[tracing::instrument(level = "debug")]
    pub fn httpdir_iter"""))

# ---- C08 / C09
MO = 'model/src/model.rs'
CL = 'cli/src/main.rs'
bug('ac-break', 'C08', (MO, "                            Err(err) => {\n                                read_errors.push((source.clone(), format!(\"{}\", err)));\n                            }", "                            Err(err) => {\n                                read_errors.push((source.clone(), format!(\"{}\", err)));\n                                break;\n                            }"))
bug('ac-lost-err', 'C08', (MO, "                                        Err(err) => {\n                                            read_errors.push((source.clone(), format!(\"{}\", err)));\n                                            break;\n                                        }", "                                        Err(err) => {\n                                            if anomalies.is_empty() { read_errors.push((source.clone(), format!(\"{}\", err))); }\n                                            break;\n                                        }"))
bug('ac-err-noanoms', 'C08', (MO, "                                        Err(err) => {\n                                            read_errors.push((source.clone(), format!(\"{}\", err)));\n                                            break;\n                                        }", "                                        Err(err) => {\n                                            read_errors.push((source.clone(), format!(\"{}\", err)));\n anomalies.clear();\n                                           break;\n                                        }"))
bug('ac-gt1', 'C08', (MO, "if !anomalies.is_empty() {", "if anomalies.len() > 1 {"))
bug('ac-take', 'C08', (MO, "for anomaly in processor.by_ref() {", "for anomaly in processor.by_ref().take(1000) {"))
bug('ac-skipjson', 'C08', (MO, "                    for source in sources {\n                        let start", "                    for source in sources {\n                        if source.get_relative().is_empty() { continue; }\n                        let start"))
bug('ac-noidx', 'C08', (MO, "None => index_errors.push(sources.clone()),", "None => { if sources.len() > 1 { index_errors.push(sources.clone()) } }"))
bug('ac-lowdist', 'C08', (MO, "Ok(anomaly) => anomalies.push(anomaly),", "Ok(anomaly) => { if anomaly.anomaly.distance > 0.5 { anomalies.push(anomaly) } }"))
bug('ac-abort', 'C08', (MO, "                            Err(err) => {\n                                read_errors.push((source.clone(), format!(\"{}\", err)));\n                            }", "                            Err(err) => return Err(err),"))
bug('ac-take-groups', 'C08', (MO, "            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))\n        {\n            let mut skip_lines", "            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))\n            .take(500)\n        {\n            let mut skip_lines"))
bug('ac-swap-fields', 'C08', (MO, "                        match index.get_processor(output_mode, &source, &mut skip_lines) {", "                        let mut anomalies = anomalies;\n                        if source.is_json() { anomalies = Vec::new() }\n                        match index.get_processor(output_mode, if sources_len > 1 { &first } else { &source }, &mut skip_lines) {"), (MO, "                    for source in sources {\n                        let start", "                    let first = sources[0].clone(); let sources_len = sources.len();\n                    for source in sources {\n                        let start"))
bug('lv-noidx', 'C08', (CL, "                println!(\" -> No baselines for {}\", source)\n", "                if !progress_sep_shown { println!(\" -> No baselines for {}\", source) }\n"))
bug('lv-err', 'C08', (CL, "                    Err(err) => {\n                        println!(\"Could not read {}: {}\", &source, err);\n                    }", "                    Err(err) => {\n                        if !output_mode.inlined() { println!(\"Could not read {}: {}\", &source, err); }\n                    }"))
bug('lv-err-noname', 'C08', (CL, "                    Err(err) => {\n                        println!(\"Could not read {}: {}\", &source, err);\n                    }", "                    Err(err) => {\n                        println!(\"Could not read: {}\", err);\n                    }"))
bug('lv-break', 'C08', (CL, "                    Err(err) => {\n                        println!(\"Could not read {}: {}\", &source, err);\n                    }", "                    Err(err) => {\n                        println!(\"Could not read {}: {}\", &source, err);\n                        break;\n                    }"))
bug('lv-anom', 'C08', (CL, "Ok(anomaly) => print_anomaly(anomaly),", "Ok(anomaly) if progress_sep_shown || anomaly.before.len() < 3 => print_anomaly(anomaly),\n                                Ok(_) => {}"))
bug('lv-pos', 'C08', (CL, "                        anomaly.anomaly.pos,\n                        anomaly.anomaly.line", "                        starting_pos,\n                        anomaly.anomaly.line"))
same('ac-whilelet', 'C08 C09', (MO, """                                for anomaly in processor.by_ref() {
                                    match anomaly {
                                        Ok(anomaly) => anomalies.push(anomaly),
                                        Err(err) => {
                                            read_errors.push((source.clone(), format!("{}", err)));
                                            break;
                                        }
                                    }
                                }""", """                                let mut failure = None;
                                while let Some(anomaly) = processor.next() {
                                    match anomaly {
                                        Ok(anomaly) => anomalies.push(anomaly),
                                        Err(err) => {
                                            failure = Some(err);
                                            break;
                                        }
                                    }
                                }
                                if let Some(err) = failure {
                                    read_errors.push((source.clone(), err.to_string()));
                                }"""))
same('ac-sortvec', 'C08 C09', (MO, """        for (index_name, sources) in Content::group_sources(&[target.clone()])?
            .drain()
            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))
        {
            let mut skip""", """        let mut groups: Vec<(IndexName, Vec<Source>)> =
            Content::group_sources(&[target.clone()])?.into_iter().collect();
        groups.sort_by(|x, y| x.0.cmp(&y.0));
        for (index_name, sources) in groups {
            let mut skip"""))
same('ac-continue', 'C08 C09', (MO, """            match self.get_index(&index_name) {
                Some(index) => {
                    for source in sources {
                        let start""", """            if self.get_index(&index_name).is_none() {
                index_errors.push(sources);
                continue;
            }
            match self.get_index(&index_name) {
                Some(index) => {
                    for source in sources {
                        let start"""), (MO, "                None => index_errors.push(sources.clone()),", "                None => {}"))
same('ac-helper', 'C08 C09', (MO, """                                for anomaly in processor.by_ref() {
                                    match anomaly {
                                        Ok(anomaly) => anomalies.push(anomaly),
                                        Err(err) => {
                                            read_errors.push((source.clone(), format!("{}", err)));
                                            break;
                                        }
                                    }
                                }
""", """                                if let Err(err) = drain_anomalies(&mut processor, &mut anomalies) {
                                    read_errors.push((source.clone(), format!("{}", err)));
                                }
"""), (MO, "/// Helper function to debug\n", """fn drain_anomalies(
    processor: &mut process::ChunkProcessor<crate::reader::DecompressReader>,
    anomalies: &mut Vec<AnomalyContext>,
) -> Result<()> {
    for anomaly in processor {
        anomalies.push(anomaly?);
    }
    Ok(())
}

/// Helper function to debug
"""))
same('lv-reorg', 'C08', (CL, "    for source in content.get_sources()? {\n        let index_name = logreduce_model::IndexName::from_source(&source);\n        match model.get_index(&index_name) {", "    let sources = content.get_sources()?;\n    for source in sources.iter() {\n        let index_name = logreduce_model::IndexName::from_source(source);\n        match model.get_index(&index_name) {"))
BODY = """                    for source in sources {
                        let start_time = Instant::now();
                        let mut anomalies = Vec::new();
                        match index.get_processor(output_mode, &source, &mut skip_lines) {
                            Ok(mut processor) => {
                                for anomaly in processor.by_ref() {
                                    match anomaly {
                                        Ok(anomaly) => anomalies.push(anomaly),
                                        Err(err) => {
                                            read_errors.push((source.clone(), format!("{}", err)));
                                            break;
                                        }
                                    }
                                }
                                total_line_count += processor.line_count;
                                if !anomalies.is_empty() {
                                    total_anomaly_count += anomalies.len();
                                    if !index_reports.contains_key(&index_name) {
                                        index_reports.insert(
                                            index_name.clone(),
                                            IndexReport::from_index(index),
                                        );
                                    }
                                    log_reports.push(LogReport {
                                        test_time: start_time.elapsed(),
                                        anomalies,
                                        source,
                                        index_name: index_name.clone(),
                                        line_count: processor.line_count,
                                        byte_count: processor.byte_count,
                                    });
                                }
                            }
                            Err(err) => {
                                read_errors.push((source.clone(), format!("{}", err)));
                            }
                        }
                    }
"""
same('ac-outcome', 'C08 C09', (MO, BODY, """                    for source in sources {
                        let (log_report, error) =
                            inspect_source(index, &index_name, output_mode, source.clone(), &mut skip_lines, &mut total_line_count);
                        if let Some(msg) = error {
                            read_errors.push((source, msg));
                        }
                        if let Some(log_report) = log_report {
                            total_anomaly_count += log_report.anomalies.len();
                            index_reports
                                .entry(index_name.clone())
                                .or_insert_with(|| IndexReport::from_index(index));
                            log_reports.push(log_report);
                        }
                    }
"""), (MO, "/// Helper function to debug\n", """fn inspect_source(
    index: &Index,
    index_name: &IndexName,
    output_mode: OutputMode,
    source: Source,
    skip_lines: &mut HashSet<String>,
    total_line_count: &mut usize,
) -> (Option<LogReport>, Option<String>) {
    let start_time = Instant::now();
    let mut processor = match index.get_processor(output_mode, &source, skip_lines) {
        Ok(processor) => processor,
        Err(err) => return (None, Some(err.to_string())),
    };
    let mut anomalies = Vec::new();
    let mut error = None;
    for anomaly in processor.by_ref() {
        match anomaly {
            Ok(anomaly) => anomalies.push(anomaly),
            Err(err) => {
                error = Some(err.to_string());
                break;
            }
        }
    }
    *total_line_count += processor.line_count;
    if anomalies.is_empty() {
        return (None, error);
    }
    let log_report = LogReport {
        test_time: start_time.elapsed(),
        anomalies,
        source,
        index_name: index_name.clone(),
        line_count: processor.line_count,
        byte_count: processor.byte_count,
    };
    (Some(log_report), error)
}

/// Helper function to debug
"""))
same('ac-letelse', 'C08 C09', (MO, BODY, """                    for source in sources {
                        let start_time = Instant::now();
                        let mut anomalies = Vec::new();
                        let mut processor = match index.get_processor(output_mode, &source, &mut skip_lines) {
                            Ok(processor) => processor,
                            Err(err) => {
                                read_errors.push((source, err.to_string()));
                                continue;
                            }
                        };
                        let mut error = None;
                        loop {
                            match processor.next() {
                                Some(Ok(anomaly)) => anomalies.push(anomaly),
                                Some(Err(err)) => { error = Some(err); break; }
                                None => break,
                            }
                        }
                        let line_count = processor.line_count;
                        total_line_count += line_count;
                        if let Some(err) = error {
                            read_errors.push((source.clone(), err.to_string()));
                        }
                        if anomalies.is_empty() {
                            continue;
                        }
                        total_anomaly_count += anomalies.len();
                        index_reports.entry(index_name.clone()).or_insert_with(|| IndexReport::from_index(index));
                        log_reports.push(LogReport {
                            test_time: start_time.elapsed(),
                            line_count,
                            byte_count: processor.byte_count,
                            anomalies,
                            source,
                            index_name: index_name.clone(),
                        });
                    }
"""))
bug('at-name', 'C09', (MO, "                                        index_name: index_name.clone(),\n                                        line_count: processor.line_count,", "                                        index_name: IndexName::from_path(source.as_str()),\n                                        line_count: processor.line_count,"), (MO, "                                        anomalies,\n                                        source,", "                                        anomalies,\n                                        source: source.clone(),"))
bug('at-bytes', 'C09', (MO, "byte_count: processor.byte_count,\n                                    });", "byte_count: processor.line_count,\n                                    });"))
bug('at-lines-onlyanom', 'C09', (MO, "                                total_line_count += processor.line_count;\n                                if !anomalies.is_empty() {", "                                if !anomalies.is_empty() {\n                                    total_line_count += processor.line_count;"))
bug('at-lines-onerr', 'C09', (MO, "                                            read_errors.push((source.clone(), format!(\"{}\", err)));\n                                            break;\n                                        }\n                                    }\n                                }\n                                total_line", "                                            read_errors.push((source.clone(), format!(\"{}\", err)));\n                                            total_line_count += processor.line_count;\n                                            break;\n                                        }\n                                    }\n                                }\n                                total_line"), (MO, "for anomaly in processor.by_ref() {", "while let Some(anomaly) = processor.next() {"))
bug('at-count-groups', 'C09', (MO, "total_anomaly_count += anomalies.len();", "total_anomaly_count = total_anomaly_count.max(anomalies.len());"))
bug('at-skip', 'C09', (MO, "            let mut skip_lines = HashSet::new();\n            match self", "            match self"), (MO, "        for (index_name, sources) in Content::group_sources(&[target.clone()])?\n            .drain()", "        let mut skip_lines = HashSet::new();\n        for (index_name, sources) in Content::group_sources(&[target.clone()])?\n            .drain()"))
bug('at-index-reuse', 'C09', (MO, "            match self.get_index(&index_name) {\n                Some(index) => {\n                    for", "            if last.is_none() { last = self.get_index(&index_name); }\n            match last {\n                Some(index) => {\n                    for"), (MO, "        let mut total_line_count = 0;\n        let mut total_anomaly_count = 0;\n        for (index_name", "        let mut total_line_count = 0;\n        let mut total_anomaly_count = 0;\n        let mut last = None;\n        for (index_name"))
bug('at-reset', 'C09', (MO, "            let mut skip_lines = HashSet::new();\n            match self", "            let mut skip_lines = HashSet::new();\n            if sources.len() > 5 { total_anomaly_count = 0; }\n            match self"))
bug('at-ixrep', 'C09', (MO, "if !index_reports.contains_key(&index_name) {", "if index_reports.is_empty() {"))
bug('at-ixrep-none', 'C09', (MO, "if !index_reports.contains_key(&index_name) {", "if !index_reports.contains_key(&index_name) && anomalies.len() > 1 {"))
same('at-sum', 'C08 C09', (MO, "                                    total_anomaly_count += anomalies.len();\n", ""), (MO, "        let mut total_anomaly_count = 0;\n        for (index_name", "        for (index_name"), (MO, "        Ok(Report {\n            created_at,", "        let total_anomaly_count = log_reports.iter().map(|lr: &LogReport| lr.anomalies.len()).sum();\n        Ok(Report {\n            created_at,"))
# ---- C25 / C26 / C37
RP = 'report/src/report.rs'
bug('ht-heading', 'C25', (RP, ".write_str(&escape(log_report.source.get_relative()))?;", ".write_str(log_report.source.get_relative())?;"))
bug('ht-ctx', 'C25', (RP, "pos + 1 + idx, escape(line)", "pos + 1 + idx, line"))
bug('ht-ctx-cond', 'C25', (RP, "pos + 1 + idx, escape(line)", "pos + 1 + idx, if line.starts_with(' ') { line.clone() } else { escape(line) }"))
bug('ht-attr', 'C25', (RP, "            escape(&model_anchor(&log_report.index_name))", "            model_anchor(&log_report.index_name)"))
bug('ht-quote', 'C25', (RP, "        .replace('\"', \"&quot;\")\n", ""))
bug('ht-lt', 'C25', (RP, "        .replace('<', \"&lt;\")\n", ""))
bug('ht-order', 'C25', (RP, "    text.replace('&', \"&amp;\")\n        .replace('<', \"&lt;\")\n", "    text.replace('<', \"&lt;\")\n        .replace('&', \"&amp;\")\n"))
bug('ht-twice', 'C25', (RP, "&[\"Target\", &format!(\"{}\", report.target)],", "&[\"Target\", &escape(&format!(\"{}\", report.target))],"))
bug('ht-title', 'C25', (RP, "head.title().write_str(&escape(title))?;", "head.title().write_str(title)?;"))
bug('ht-fast', 'C25', (RP, "fn escape(text: &str) -> String {\n", "fn escape(text: &str) -> String {\n    if !text.contains('<') { return text.to_string(); }\n"))
bug('ht-href-single', 'C25', (RP, "                        .attr(&format!(\"href=\\\"{}\\\"\", escape(log_report.source.as_str())))", "                        .attr(&format!(\"href={}\", escape(log_report.source.as_str())))"))
same('ht-charwise', 'C25 C26 C37', (RP, """    text.replace('&', "&amp;")
        .replace('<', "&lt;")
        .replace('>', "&gt;")
        .replace('"', "&quot;")
        .replace('\\'', "&#39;")
""", """    let mut out = String::with_capacity(text.len());
    for c in text.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '"' => out.push_str("&quot;"),
            '\\'' => out.push_str("&#39;"),
            _ => out.push(c),
        }
    }
    out
"""))
same('ht-loop', 'C25 C26 C37', (RP, """    text.replace('&', "&amp;")
        .replace('<', "&lt;")
        .replace('>', "&gt;")
        .replace('"', "&quot;")
        .replace('\\'', "&#39;")
""", """    let mut out = text.to_string();
    for (from, to) in [("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"), ("\\"", "&quot;"), ("'", "&#39;")] {
        out = out.replace(from, to);
    }
    out
"""))
same('ht-write', 'C25 C26 C37', (RP, """        loglines
            .pre()
            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;""", """        let text = escape(line);
        let mut pre = loglines.pre();
        write!(pre, "   {:4} | {}", pos + 1 + idx, text)?;"""))
same('ht-each', 'C25 C26 C37', (RP, """    for (idx, line) in xs.iter().enumerate() {
        loglines
            .pre()
            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
    }
    Ok(())""", """    xs.iter().enumerate().try_for_each(|(idx, line)| {
        let number = pos + 1 + idx;
        loglines
            .pre()
            .write_str(&format!("   {:4} | {}", number, escape(line)))
    })"""))
bug('sri-none', 'C26', (RP, """            .attr(&format!("src=\\"{}\\"", href))
            .attr(&format!("integrity=\\"{}\\"", integrity))""", """            .attr(&format!("src=\\"{}\\"", href))
            .attr(&format!("data-integrity=\\"{}\\"", integrity))"""))
bug('sri-co', 'C26', (RP, """            .attr("rel=\\"stylesheet\\"")
            .attr(&format!("integrity=\\"{}\\"", integrity))
            .attr("crossorigin=\\"anonymous\\"");""", """            .attr("rel=\\"stylesheet\\"")
            .attr(&format!("integrity=\\"{}\\"", integrity));"""))
bug('sri-trunc', 'C26', (RP, "sha384-4lW8IOzfCHwzlShlG/AP2aYc91C+r+v3lpUEpjBM+FOHy0INgLKgyMBZd7O9ejln", "sha384-4lW8IOzfCHwzlShlG/AP2aYc91C+r+v3lpUEpjBM+FOHy0INgLKgyMBZd7O9"))
bug('sri-new', 'C26', (RP, "    body.script().write_str(JS)?;", "    body.script().attr(\"src=\\\"https://cdn.example.com/x.js\\\"\");\n    body.script().write_str(JS)?;"))
same('sri-let', 'C25 C26 C37', (RP, """        body.script()
            .attr(&format!("src=\\"{}\\"", href))
            .attr(&format!("integrity=\\"{}\\"", integrity))
            .attr("crossorigin=\\"anonymous\\"");""", """        let src = format!("src=\\"{}\\"", href);
        let digest = format!("integrity=\\"{}\\"", integrity);
        let script = body.script().attr("crossorigin=\\"anonymous\\"");
        let _script = script.attr(&src).attr(&digest);"""))
bug('sh-take', 'C37', (RP, "for (idx, line) in xs.iter().enumerate() {", "for (idx, line) in xs.iter().enumerate().take(2) {"))
bug('sh-skip', 'C37', (RP, "    for anomaly in anomalies {\n", "    for anomaly in anomalies {\n        if anomaly.anomaly.line.is_empty() { continue; }\n"))
bug('sh-same', 'C37', (RP, "render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;", "render_context(loglines, anomaly.anomaly.pos, &anomaly.before)?;"))
bug('sh-blank', 'C37', (RP, "    for (idx, line) in xs.iter().enumerate() {\n", "    for (idx, line) in xs.iter().enumerate().filter(|(_, l)| !l.trim().is_empty()) {\n"))
bug('sh-noindex', 'C37', (RP, "        for log_report in &report.log_reports {\n", "        for log_report in &report.log_reports {\n            if !report.index_reports.contains_key(&log_report.index_name) { continue; }\n"))
bug('sh-pos', 'C37', (RP, "                dist,\n                anomaly.anomaly.pos,", "                dist,\n                starting_pos,"))
# ---- C20 / C38
SAVE = "        bincode::serialize_into(&mut encoder, self).context(\"Can't save model\")?;\n        encoder.finish().context(\"Can't save model\").map(|_| ())\n"
bug('sv-nofin', 'C20', (MO, SAVE, "        bincode::serialize_into(&mut encoder, self).context(\"Can't save model\")\n"))
bug('sv-flush', 'C20', (MO, SAVE, "        bincode::serialize_into(&mut encoder, self).context(\"Can't save model\")?;\n        std::io::Write::flush(&mut encoder).context(\"Can't save model\")\n"))
bug('sv-ignore', 'C20', (MO, SAVE, "        bincode::serialize_into(&mut encoder, self).context(\"Can't save model\")?;\n        let _ = encoder.finish();\n        Ok(())\n"))
bug('sv-buf', 'C20', (MO, "            std::fs::File::create(path).context(\"Can't create file\")?,", "            std::io::BufWriter::new(std::fs::File::create(path).context(\"Can't create file\")?),"))
bug('sv-zlib', 'C20', (MO, "        bincode::deserialize_from(flate2::read::GzDecoder::new(\n            std::fs::File::open(path).context(\"Can't open file\")?,", "        bincode::deserialize_from(flate2::read::ZlibDecoder::new(\n            std::fs::File::open(path).context(\"Can't open file\")?,"))
bug('sv-report-err', 'C20', (MO, "        bincode::serialize_into(&mut encoder, self).context(\"Can't save report\")?;\n", "        if let Err(e) = bincode::serialize_into(&mut encoder, self) { tracing::error!(\"save: {}\", e); }\n"))
same('sv-bufok', 'C20', (MO, "            std::fs::File::create(path).context(\"Can't create file\")?,", "            std::io::BufWriter::new(std::fs::File::create(path).context(\"Can't create file\")?),"), (MO, SAVE, """        bincode::serialize_into(&mut encoder, self).context("Can't save model")?;
        let mut inner = encoder.finish().context("Can't save model")?;
        std::io::Write::flush(&mut inner).context("Can't save model")
"""))
same('sv-let', 'C20', (MO, SAVE, """        let res = bincode::serialize_into(&mut encoder, self);
        res.context("Can't save model")?;
        match encoder.finish() {
            Ok(_) => Ok(()),
            Err(e) => Err(anyhow::Error::from(e).context("Can't save model")),
        }
"""))
same('sv-helper', 'C20', (MO, SAVE, """        write_all_of(encoder, self).context("Can't save model")
"""), (MO, "        let mut encoder = flate2::write::GzEncoder::new(\n            std::fs::File::create(path).context(\"Can't create file\")?,", "        let encoder = flate2::write::GzEncoder::new(\n            std::fs::File::create(path).context(\"Can't create file\")?,"), (MO, "/// Helper function to debug\n", """fn write_all_of<T: Serialize>(mut encoder: flate2::write::GzEncoder<std::fs::File>, value: &T) -> Result<()> {
    bincode::serialize_into(&mut encoder, value)?;
    encoder.finish()?;
    Ok(())
}

/// Helper function to debug
"""))
bug('cd-skip', 'C38', (MO, "    sources: Vec<Source>,\n    index: ChunkIndex,\n    line_count: usize,", "    sources: Vec<Source>,\n    index: ChunkIndex,\n    #[serde(skip)]\n    line_count: usize,"))
bug('cd-skipif', 'C38', (MO, "pub struct IndexReport {\n    pub train_time: Duration,\n    pub sources", "pub struct IndexReport {\n    pub train_time: Duration,\n    #[serde(skip_serializing_if = \"Vec::is_empty\")]\n    pub sources"))
bug('cd-skipvar', 'C38', (MO, "    HashingTrick(hashing_index::HashingIndex),\n    Noop,", "    HashingTrick(hashing_index::HashingIndex),\n    #[serde(skip)]\n    Noop,"))
# ---- C21 / C22 zuul
ZU = 'model/src/zuul.rs'
bug('zu-self', 'C21', (ZU, "score.is_some() && self.uuid != build.uuid", "score.is_some() && self.change != build.change.unwrap_or(0)"))
bug('zu-selfor', 'C21', (ZU, "score.is_some() && self.uuid != build.uuid", "score.is_some() && (self.uuid != build.uuid || build.voting)"))
bug('zu-noavail', 'C21', (ZU, "            .filter(|(_, build)| Self::logs_available(build))\n", "            .filter(|(_, build)| build.log_url.is_some())\n"))
bug('zu-avail-neg', 'C21', (ZU, "                    false\n                }\n                Ok(n) => n,", "                    true\n                }\n                Ok(n) => n,"))
bug('zu-avail-any', 'C21', (ZU, "                Ok(n) => n,", "                Ok(_) => true,"))
bug('zu-avail-ref', 'C21', (ZU, "        match target.log_url {\n            None", "        match target.ref_url {\n            None"))
bug('zu-nosuccess', 'C21', (ZU, "                (\"result\", \"SUCCESS\"),", "                (\"complete\", \"true\"),"))
bug('zu-project', 'C21', (ZU, "(\"job_name\", self.job_name.as_str())", "(\"job_name\", self.project.as_str())"))
bug('zu-field', 'C21', (ZU, "        project: build.project,\n        branch: build.branch,", "        project: build.branch,\n        branch: build.project,"))
bug('zu-refurl', 'C21', (ZU, "        ref_url: build.ref_url.context", "        ref_url: build.log_url.clone().context"), (ZU, "log_url: build.log_url.context", "log_url: build.log_url.clone().context"))
bug('zu-fails', 'C21', (ZU, "match target.log_url.is_some() && target.ref_url.is_some() && target.change.is_some()", "match target.log_url.is_some() && target.change.is_some()"))
bug('zu-swap', 'C21', (ZU, "            .sorted_by(|(score1, _), (score2, _)| score2.cmp(score1))\n            // Filter stalled url\n            .filter(|(_, build)| Self::logs_available(build))", "            .sorted_by(|(score1, _), (score2, _)| score2.cmp(score1))"), (ZU, "        let samples = self.get_success_samples()?;", "        let samples = self.get_success_samples()?;\n        if !samples.first().map_or(false, Self::logs_available) { return Ok(Vec::new()); }"))
same('zu-loop', 'C21 C22', (ZU, """        samples
            .into_iter()
            // Compute a score value
            .map(|build| (self.baseline_score(&build, &now), build))
            // Remove unwanted build
            .filter(|(score, build)| score.is_some() && self.uuid != build.uuid)
            // Order by descending score
            .sorted_by(|(score1, _), (score2, _)| score2.cmp(score1))
            // Filter stalled url
            .filter(|(_, build)| Self::logs_available(build))
            // .map(|b| dbg!(b))
            // Keep the best
            .take(max_builds)
            // Create the content data type
            .map(|(_score, build)| new_content(self.api.clone(), build))
            .collect()
""", """        let mut candidates = Vec::new();
        for build in samples {
            if let Some(score) = self.baseline_score(&build, &now) {
                if build.uuid == self.uuid {
                    continue;
                }
                candidates.push((score, build));
            }
        }
        candidates.sort_by(|(a, _), (b, _)| b.cmp(a));
        let mut baselines = Vec::new();
        for (_, build) in candidates {
            if baselines.len() >= max_builds {
                break;
            }
            if Self::logs_available(&build) {
                baselines.push(new_content(self.api.clone(), build)?);
            }
        }
        Ok(baselines)
"""))
same('zu-helper', 'C21 C22', (ZU, "            .filter(|(score, build)| score.is_some() && self.uuid != build.uuid)", "            .filter(|(score, build)| self.wanted(*score, build))"), (ZU, "    fn logs_available(", "    fn wanted(&self, score: Option<i32>, build: &zuul_build::Build) -> bool {\n        if score.is_none() {\n            return false;\n        }\n        !(build.uuid == self.uuid)\n    }\n\n    fn logs_available("),
 (ZU, "            Some(ref url) => match crate::reader::head_url(url, url) {\n                Err(e) => {", "            Some(ref url) => match crate::reader::head_url(url, url) {\n                Err(ref e) => {"))
same('zu-flow', 'C21 C22', (ZU, """            .filter(|(_, build)| Self::logs_available(build))
            // .map(|b| dbg!(b))
            // Keep the best
            .take(max_builds)
            // Create the content data type
            .map(|(_score, build)| new_content(self.api.clone(), build))
""", """            .map(|(_, build)| build)
            .filter(Self::logs_available)
            .map(|build| new_content(self.api.clone(), build))
            .take(max_builds)
"""), (ZU, """        Ok(xs) => Ok(xs),
        Err(e) => crate::reader::drop_url(api, url).map_or_else(Err, |_| Err(e)),
""", """        Err(e) => {
            crate::reader::drop_url(api, url)?;
            Err(e)
        }
        builds => builds,
"""))
bug('zu-keep', 'C22', (ZU, "        Err(e) => crate::reader::drop_url(api, url).map_or_else(Err, |_| Err(e)),", "        Err(e) => Err(e),"))
bug('zu-dropapi', 'C22', (ZU, "        Err(e) => crate::reader::drop_url(api, &url).map_or_else(Err, |_| Err(e)),", "        Err(e) => crate::reader::drop_url(api, api).map_or_else(Err, |_| Err(e)),"))
bug('zu-empty', 'C22', (ZU, "        Err(e) => crate::reader::drop_url(api, url).map_or_else(Err, |_| Err(e)),", "        Err(_) => crate::reader::drop_url(api, url).map(|_| Vec::new()),"))
bug('zu-nofetch', 'C22', (ZU, "        let samples = self.get_success_samples()?;", "        let samples = self.get_success_samples().unwrap_or_default();"))
same('zu-dec', 'C21 C22', (ZU, """    let reader = crate::reader::from_url(api, &url)?;
    match zuul_build::decode_build(reader).context("Can't decode zuul api") {
        Ok(x) => Ok(x),
        Err(e) => crate::reader::drop_url(api, &url).map_or_else(Err, |_| Err(e)),
    }
}

fn get_builds(api: &Url, url: &Url) -> Result<Vec<zuul_build::Build>> {
    let reader = crate::reader::from_url(api, url)?;
    match zuul_build::decode_builds(reader).context("Can't decode zuul api") {
        Ok(xs) => Ok(xs),
        Err(e) => crate::reader::drop_url(api, url).map_or_else(Err, |_| Err(e)),
    }
}
""", """    let reader = crate::reader::from_url(api, &url)?;
    or_drop(api, &url, zuul_build::decode_build(reader).context("Can't decode zuul api"))
}

fn or_drop<T>(api: &Url, url: &Url, decoded: Result<T>) -> Result<T> {
    if decoded.is_err() {
        crate::reader::drop_url(api, url)?;
    }
    decoded.context("Can't decode zuul api")
}

fn get_builds(api: &Url, url: &Url) -> Result<Vec<zuul_build::Build>> {
    crate::reader::from_url(api, url)
        .and_then(|reader| or_drop(api, url, zuul_build::decode_builds(reader).map_err(anyhow::Error::from)))
}
"""))
# ---- C12 training
PR = 'model/src/process.rs'
bug('tr-nocomplete', 'C12', (MO, "        trainer.complete();\n        let train_time", "        let train_time"))
bug('tr-empty', 'C12', (PR, "            let tokens = self.index.tokenize(raw_str);\n\n            if !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n                self.baselines.push(tokens);", "            let tokens = self.index.tokenize(raw_str);\n\n            if !tokens.is_empty() && !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n                self.baselines.push(tokens);"))
bug('tr-clear', 'C12', (PR, "                if self.baselines.len() == CHUNK_SIZE {\n                    self.index.add(&self.baselines);\n                    self.baselines.clear();\n                }", "                if self.baselines.len() == CHUNK_SIZE {\n                    self.index.add(&self.baselines[1..]);\n                    self.baselines.clear();\n                }"))
bug('tr-full', 'C12', (PR, "        if !self.baselines.is_empty() {\n            self.index.add(&self.baselines);", "        if self.baselines.len() > 1 {\n            self.index.add(&self.baselines);"))
bug('tr-utf8', 'C12', (PR, """            let raw_str = std::str::from_utf8(&line.0[..])
                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
            self.line_count += 1;
            self.byte_count += line.0.len();
            let tokens""", """            let raw_str = match std::str::from_utf8(&line.0[..]) { Ok(s) => s, Err(_) => continue };
            self.line_count += 1;
            self.byte_count += line.0.len();
            let tokens"""))
bug('tr-readerr', 'C12', (PR, "            let line = line?;\n            let raw_str = std::str::from_utf8(&line.0[..])\n                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;\n            self.line_count += 1;\n            self.byte_count += line.0.len();\n            let tokens = self.index.tokenize(raw_str);\n\n            if", "            let line = match line { Ok(l) => l, Err(_) => break };\n            let raw_str = std::str::from_utf8(&line.0[..])\n                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;\n            self.line_count += 1;\n            self.byte_count += line.0.len();\n            let tokens = self.index.tokenize(raw_str);\n\n            if"))
bug('tr-rawkey', 'C12', (PR, "            if !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n                self.baselines", "            let key: String = tokens.chars().take(64).collect();\n            if !self.skip_lines.contains(&key) {\n                self.skip_lines.insert(key);\n                self.baselines"))
bug('tr-openskip', 'C12', (MO, "                Source::Local(_, path_buf) => Source::file_open(path_buf.as_path())?,\n                Source::Remote(prefix, url) => Source::url_open(*prefix, url)?,\n            };\n            if let", "                Source::Local(_, path_buf) => Source::file_open(path_buf.as_path()),\n                Source::Remote(prefix, url) => Source::url_open(*prefix, url),\n            };\n            let reader = match reader { Ok(r) => r, Err(_) => continue };\n            if let"))
bug('tr-stop', 'C12', (MO, "                tracing::error!(\"{}: failed to load: {}\", source, e)\n", "                tracing::error!(\"{}: failed to load: {}\", source, e);\n                break;\n"))
bug('tr-first', 'C12', (MO, "        for source in sources {\n            let reader = match", "        for source in sources.iter().take(64) {\n            let reader = match"))
bug('tr-mfail', 'C12', (MO, "            let index = Index::train(&sources, mk_index())?;\n            indexes.insert(index_name, index);", "            if let Ok(index) = Index::train(&sources, mk_index()) {\n                indexes.insert(index_name, index);\n            }"))
bug('tr-mname', 'C12', (MO, "            indexes.insert(index_name, index);", "            indexes.insert(IndexName(index_name.0.to_lowercase()), index);"))
bug('tr-count', 'C12', (PR, "            self.line_count += 1;\n            self.byte_count += line.0.len();\n            let tokens = self.index.tokenize(raw_str);\n\n            if !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n", "            self.byte_count += line.0.len();\n            let tokens = self.index.tokenize(raw_str);\n\n            if !self.skip_lines.contains(&tokens) {\n                self.line_count += 1;\n                self.skip_lines.insert(tokens.clone());\n"))
same('tr-insert', 'C12', (PR, """            if !self.skip_lines.contains(&tokens) {
                self.skip_lines.insert(tokens.clone());
                self.baselines.push(tokens);

                if self.baselines.len() == CHUNK_SIZE {
                    self.index.add(&self.baselines);
                    self.baselines.clear();
                }
            }
""", """            if self.skip_lines.insert(tokens.clone()) {
                self.push_line(tokens);
            }
"""), (PR, "    pub fn complete(&mut self) {\n        if !self.baselines.is_empty() {\n            self.index.add(&self.baselines);\n        }", """    fn push_line(&mut self, tokens: String) {
        self.baselines.push(tokens);
        if self.baselines.len() >= CHUNK_SIZE {
            let chunk = std::mem::take(&mut self.baselines);
            self.index.add(&chunk);
        }
    }

    pub fn complete(&mut self) {
        if self.baselines.is_empty() {
            return;
        }
        self.index.add(&self.baselines);
        self.baselines.clear();"""))
same('tr-tryfor', 'C12', (PR, """        for line in logreduce_iterator::BytesLines::new(read, self.is_json) {
            let line = line?;
""", """        let mut lines = logreduce_iterator::BytesLines::new(read, self.is_json);
        while let Some(line) = lines.next() {
            let line = match line {
                Ok(line) => line,
                Err(err) => return Err(err.into()),
            };
"""), (MO, """        for source in sources {
            let reader = match source {
                Source::Local(_, path_buf) => Source::file_open(path_buf.as_path())?,
                Source::Remote(prefix, url) => Source::url_open(*prefix, url)?,
            };
            if let Err(e) = trainer.add(reader) {
                tracing::error!("{}: failed to load: {}", source, e)
            }
        }
""", """        for source in sources.iter() {
            let reader = open_source(source)?;
            trainer
                .add(reader)
                .unwrap_or_else(|e| tracing::error!("{}: failed to load: {}", source, e));
        }
"""), (MO, "/// Helper function to debug\n", """fn open_source(source: &Source) -> Result<crate::reader::DecompressReader> {
    match source {
        Source::Local(_, path_buf) => Source::file_open(path_buf.as_path()),
        Source::Remote(prefix, url) => Source::url_open(*prefix, url),
    }
}

/// Helper function to debug
"""))
same('tr-collect', 'C12', (MO, """        let mut indexes = HashMap::new();
        for (index_name, sources) in Content::group_sources(&baselines)?.drain() {
            debug_or_progress(
                output_mode,
                &format!(
                    "Loading index {} with {}",
                    index_name,
                    sources.iter().format(", ")
                ),
            );
            let index = Index::train(&sources, mk_index())?;
            indexes.insert(index_name, index);
        }
""", """        let indexes = Content::group_sources(&baselines)?
            .into_iter()
            .map(|(index_name, sources)| {
                debug_or_progress(
                    output_mode,
                    &format!(
                        "Loading index {} with {}",
                        index_name,
                        sources.iter().format(", ")
                    ),
                );
                let index = Index::train(&sources, mk_index())?;
                Ok((index_name, index))
            })
            .collect::<Result<HashMap<_, _>>>()?;
"""))
# ---- inspection of a source (C13 lines, C14 anomalies)
LP = 'C13 C14'
bug('in-skip-empty', 'C13', (PR, "            // Call the static method of the ChunkIndex trait\n            let tokens = self.index.tokenize(raw_str);\n\n            // Keep", "            if raw_str.trim().is_empty() {\n                continue;\n            }\n            let tokens = self.index.tokenize(raw_str);\n\n            // Keep"))
bug('in-break-err', 'C13', (PR, "                Some(line) => line?,\n                None => break,", "                Some(Ok(line)) => line,\n                Some(Err(_)) | None => break,"))
bug('in-utf8-skip', 'C13', (PR, "            let raw_str = std::str::from_utf8(&line.0[..])\n                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;\n            self.line_count += 1;\n            self.byte_count += line.0.len();\n            self.coord += 1;", "            let raw_str = match std::str::from_utf8(&line.0[..]) {\n                Ok(s) => s,\n                Err(_) => continue,\n            };\n            self.line_count += 1;\n            self.byte_count += line.0.len();\n            self.coord += 1;"))
bug('in-tail', 'C13', (PR, "        if !self.targets.is_empty() || self.current_anomaly.is_some() {\n            self.do_search_anomalies();\n        }", "        if self.targets.len() > 1 {\n            self.do_search_anomalies();\n        }"))
bug('in-clear-full', 'C13', (PR, "            } else if self.buffer.len() > CHUNK_SIZE * 10 {\n                // the source contains mostly duplicate line.\n                self.do_search_anomalies();", "            } else if self.buffer.len() > CHUNK_SIZE * 10 {\n                // the source contains mostly duplicate line.\n                self.reset(0);"))
bug('in-return-early', 'C13', (PR, "                    self.do_search_anomalies();\n                    if !self.anomalies.is_empty() {\n                        return Ok(());\n                    }\n                }\n            } else", "                    self.do_search_anomalies();\n                    return Ok(());\n                }\n            } else"))
bug('in-coord-dup', 'C13', (PR, "                self.targets_coord.push(self.coord);", "                self.targets_coord.push(self.line_count);"), (PR, "            self.line_count += 1;\n            self.byte_count += line.0.len();\n            self.coord += 1;", "            self.line_count += 1;\n            self.byte_count += line.0.len();\n            self.coord += 2;"))
bug('in-insert-raw', 'C13', (PR, "            // Keep in the buffer all the lines until we get CHUNK_SIZE unique lines\n", "            let raw_copy = raw_str.to_string();\n"), (PR, "self.skip_lines.insert(tokens.clone());\n\n                self.targets.push", "self.skip_lines.insert(raw_copy);\n\n                self.targets.push"))
bug('in-count-after-marker', 'C13', (PR, "                if self.targets.len() == CHUNK_SIZE {\n                    self.do_search_anomalies();\n                    if", "                if self.targets.len() == CHUNK_SIZE {\n                    self.stopped = true;\n                    self.do_search_anomalies();\n                    if"))
bug('in-keep-coord', 'C13', (PR, "        self.targets.clear();\n        self.targets_coord.clear();\n\n        // Keep", "        self.targets.clear();\n\n        // Keep"))
bug('in-next-end', 'C13', (PR, "                Ok(()) if self.anomalies.is_empty() => None,", "                Ok(()) if self.anomalies.len() < 2 => None,"))
bug('an-next-end', 'C14', (PR, "                Ok(()) if self.anomalies.is_empty() => None,", "                Ok(()) if self.anomalies.len() < 2 => None,"))
bug('an-ge', 'C14', (PR, "let is_anomaly = distance > &THRESHOLD;", "let is_anomaly = distance >= &THRESHOLD;"))
bug('an-lost', 'C14', (PR, "                    // We can push the current anomaly because any needed after context would overlap with the current anomaly.\n                    self.anomalies.push_back(anomaly.clone());\n", "                    if anomaly.anomaly.distance > *distance {\n                        self.anomalies.push_back(anomaly.clone());\n                    }\n"))
bug('an-dup', 'C14', (PR, "                        self.anomalies.push_back(anomaly.clone());\n                        self.current_anomaly = None;\n                        break;", "                        self.anomalies.push_back(anomaly.clone());\n                        break;"))
bug('an-tail', 'C14', (PR, "        if let Some(anomaly) = &self.current_anomaly {\n            // No more after context available\n            self.anomalies.push_back(anomaly.clone());\n            self.current_anomaly = None;\n        }", "        if let Some(anomaly) = &self.current_anomaly {\n            // No more after context available\n            if !anomaly.after.is_empty() {\n                self.anomalies.push_back(anomaly.clone());\n            }\n            self.current_anomaly = None;\n        }"))
bug('an-tail2', 'C14', (PR, "            // No more after context available\n            self.anomalies.push_back(anomaly.clone());\n            self.current_anomaly = None;\n", "            // No more after context available\n            if !self.stopped {\n                self.anomalies.push_back(anomaly.clone());\n                self.current_anomaly = None;\n            }\n"))
bug('an-pos', 'C14', (PR, "                        pos: *log_pos,", "                        pos: *coord,"))
bug('an-distance', 'C14', (PR, "                        distance: *distance,", "                        distance: distances[0],"))
bug('an-front', 'C14', (PR, "                    // We can push the current anomaly because any needed after context would overlap with the current anomaly.\n                    self.anomalies.push_back", "                    self.anomalies.push_front"))
bug('an-pop-back', 'C14', (PR, "            .pop_front()\n", "            .pop_back()\n"))
bug('an-skipmatch', 'C14', (PR, "let distance_found_in_buffer = line_coord == coord;", "let distance_found_in_buffer = line_coord >= coord;"))
bug('an-nopanic', 'C14', (PR, "                if distance_found_in_buffer && is_anomaly {", "                if distance_found_in_buffer && is_anomaly && !bytes.is_empty() {"), (PR, "            } else if is_anomaly {\n                panic!(\n                    \"Could not find target_coord {:?} in buffer {:#?} (starting at {})\",\n                    coord, self.buffer, buffer_pos\n                );\n            }", "            }"))
bug('an-skip1', 'C14', (PR, "distances.iter().zip(self.targets_coord.iter())", "distances.iter().skip(1).zip(self.targets_coord.iter())"))
same('in-take', LP, (PR, "            // No more after context available\n            self.anomalies.push_back(anomaly.clone());\n            self.current_anomaly = None;\n", "            // No more after context available\n            self.anomalies.push_back(anomaly);\n"), (PR, "        if let Some(anomaly) = &self.current_anomaly {\n            // No", "        if let Some(anomaly) = self.current_anomaly.take() {\n            // No"))
same('in-take2', LP, (PR, """                if let Some(anomaly) = &self.current_anomaly {
                    // We can push the current anomaly because any needed after context would overlap with the current anomaly.
                    self.anomalies.push_back(anomaly.clone());
                    self.current_anomaly = None;
                }
""", """                if let Some(previous) = self.current_anomaly.take() {
                    self.anomalies.push_back(previous);
                }
"""))
same('in-helper', LP, (PR, """                    // We can push the current anomaly because any needed after context would overlap with the current anomaly.
                    self.anomalies.push_back(anomaly.clone());
                    self.current_anomaly = None;
                }
""", """                    self.anomalies.push_back(anomaly.clone());
                    self.current_anomaly = None;
                }
"""), (PR, """        if let Some(anomaly) = &self.current_anomaly {
            // No more after context available
            self.anomalies.push_back(anomaly.clone());
            self.current_anomaly = None;
        }
        Ok(())
    }
""", """        self.flush_pending();
        Ok(())
    }

    fn flush_pending(&mut self) {
        if let Some(anomaly) = self.current_anomaly.take() {
            self.anomalies.push_back(anomaly);
        }
    }
"""))
same('in-loop', LP, (PR, """        self.anomalies
            .pop_front()
            .map(Ok)
            .or_else(|| match self.read_anomalies() {
                // When read_anomalies doesn't push new anomalies, that means we reach the end.
                Ok(()) if self.anomalies.is_empty() => None,
                Ok(()) => self.next(),
                Err(e) => Some(Err(e)),
            })
""", """        if let Some(anomaly) = self.anomalies.pop_front() {
            return Some(Ok(anomaly));
        }
        match self.read_anomalies() {
            Ok(()) => self.anomalies.pop_front().map(Ok),
            Err(e) => Some(Err(e)),
        }
"""))
same('in-forline', LP, (PR, """        while !self.stopped {
            let line = match self.reader.next() {
                Some(line) => line?,
                None => break,
            };
""", """        loop {
            if self.stopped {
                break;
            }
            let next = self.reader.next();
            if next.is_none() {
                break;
            }
            let line = next.unwrap()?;
"""))
same('in-insert', LP, (PR, """            if !self.skip_lines.contains(&tokens) {
                self.skip_lines.insert(tokens.clone());

""", """            if self.skip_lines.insert(tokens.clone()) {
"""))
same('in-full-helper', LP, (PR, """                if self.targets.len() == CHUNK_SIZE {
                    self.do_search_anomalies();
                    if !self.anomalies.is_empty() {
                        return Ok(());
                    }
                }
            } else if self.buffer.len() > CHUNK_SIZE * 10 {
                // the source contains mostly duplicate line.
                self.do_search_anomalies();
                if !self.anomalies.is_empty() {
                    return Ok(());
                }
            }
""", """            }
            if self.is_full() {
                self.do_search_anomalies();
                if !self.anomalies.is_empty() {
                    return Ok(());
                }
            }
"""), (PR, "    fn reset(&mut self", """    fn is_full(&self) -> bool {
        self.targets.len() >= CHUNK_SIZE || self.buffer.len() > CHUNK_SIZE * 10
    }

    fn reset(&mut self"""))
same('in-indexed', LP, (PR, "for (distance, coord) in distances.iter().zip(self.targets_coord.iter()) {", "for (i, distance) in distances.iter().enumerate() {\n            let coord = &self.targets_coord[i];"))
same('in-mark', LP, (PR, """    fn read_anomalies(&mut self) -> Result<()> {
""", """    fn is_marker(line: &str) -> bool {
        line.contains("TASK [log-classify")
    }

    fn read_anomalies(&mut self) -> Result<()> {
"""), (PR, 'if raw_str.contains("TASK [log-classify") {', "if Self::is_marker(raw_str) {"))
same('in-reset-order', LP, (PR, """        self.targets.clear();
        self.targets_coord.clear();

        // Keep""", """        // Keep"""), (PR, """        self.buffer.clear();
    }""", """        self.buffer.clear();
        self.targets = Vec::with_capacity(CHUNK_SIZE);
        self.targets_coord.truncate(0);
    }"""))
same('in-while-let', LP, (PR, """            if let Some((log_line, log_pos)) = target_str {
""", """            let found = target_str.is_some();
            debug_assert!(found == is_anomaly);
            if let Some((log_line, log_pos)) = target_str {
"""))

same('in-range', LP, (PR, "for (distance, coord) in distances.iter().zip(self.targets_coord.iter()) {", "for i in 0..distances.len() {\n            let distance = &distances[i];\n            let coord = &self.targets_coord[i];"))
same('in-const', LP, (PR, "let is_anomaly = distance > &THRESHOLD;", "let is_anomaly = !(*distance <= THRESHOLD);"))
same('in-mk', LP, (PR, """                self.current_anomaly = Some(AnomalyContext {
                    before,
                    after: Vec::new(),
                    anomaly: Anomaly {
                        distance: *distance,
                        pos: *log_pos,
                        line: log_line,
                    },
                });
""", """                self.current_anomaly = Some(new_anomaly(before, *distance, *log_pos, log_line));
"""), (PR, "/// Build the before context from the buffer and the left_overs\n", """fn new_anomaly(before: Vec<String>, distance: f32, pos: usize, line: String) -> AnomalyContext {
    let anomaly = Anomaly {
        distance,
        pos,
        line,
    };
    AnomalyContext {
        before,
        after: vec![],
        anomaly,
    }
}

/// Build the before context from the buffer and the left_overs
"""))
same('in-replace', LP, (PR, """                if let Some(anomaly) = &self.current_anomaly {
                    // We can push the current anomaly because any needed after context would overlap with the current anomaly.
                    self.anomalies.push_back(anomaly.clone());
                    self.current_anomaly = None;
                }
""", ""), (PR, """                self.current_anomaly = Some(AnomalyContext {
                    before,
                    after: Vec::new(),
                    anomaly: Anomaly {
                        distance: *distance,
                        pos: *log_pos,
                        line: log_line,
                    },
                });
""", """                let previous = self.current_anomaly.replace(AnomalyContext {
                    before,
                    after: Vec::new(),
                    anomaly: Anomaly {
                        distance: *distance,
                        pos: *log_pos,
                        line: log_line,
                    },
                });
                if let Some(previous) = previous {
                    self.anomalies.push_back(previous);
                }
"""))
same('in-match', LP, (PR, """            let line = match self.reader.next() {
                Some(line) => line?,
                None => break,
            };
""", """            let line = match self.reader.next() {
                Some(Ok(line)) => line,
                Some(Err(e)) => return Err(e.into()),
                None => break,
            };
"""))
same('in-whilelet', LP, (PR, """        while !self.stopped {
            let line = match self.reader.next() {
                Some(line) => line?,
                None => break,
            };
""", """        while let Some(line) = if self.stopped { None } else { self.reader.next() } {
            let line = line?;
"""))
same('in-account', LP, (PR, """            self.line_count += 1;
            self.byte_count += line.0.len();
            self.coord += 1;
""", """            self.account(line.0.len());
"""), (PR, "    fn reset(&mut self", """    fn account(&mut self, size: usize) {
        self.coord += 1;
        self.line_count += 1;
        self.byte_count += size;
    }

    fn reset(&mut self"""))
same('in-complete', LP, (PR, """                    anomaly.after.push(raw_str);
                    if anomaly.after.len() >= CTX_DISTANCE {
                        // The current anomaly is completed. TODO: try using std::mem::replace
                        self.anomalies.push_back(anomaly.clone());
                        self.current_anomaly = None;
                    }
                    // And""", """                    anomaly.after.push(raw_str);
                    let completed = anomaly.after.len() >= CTX_DISTANCE;
                    if completed {
                        self.anomalies.extend(self.current_anomaly.take());
                    }
                    // And"""))
same('in-coord-reset', 'C13', (PR, "        self.targets.clear();\n        self.targets_coord.clear();\n\n", "        self.targets.clear();\n        self.targets_coord.clear();\n        self.coord = 0;\n\n"))
bug('an-after-pending', 'C14', (PR, "                    // And we update the last context pos to adjust the next anomaly before context.\n", "                    if self.stopped {\n                        self.current_anomaly = None;\n                    }\n"))

# ---- C11, C16
IX = 'index/src/index.rs'
UPD = """            .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));
    });"""
bug('ix-max', 'C16', (IX, UPD, UPD.replace('.min(', '.max(')))
bug('ix-init0', 'C16', (IX, "    let mut result = vec![1.0; targets.cols()];\n\n", "    let mut result = vec![2.0; targets.cols()];\n\n"))
bug('ix-nominus', 'C16', (IX, UPD, UPD.replace('(1.0 - v).min(', 'v.min(')))
bug('ix-take', 'C16', (IX, "    baselines.iter().for_each(|baseline| {", "    baselines.iter().take(64).for_each(|baseline| {"))
bug('ix-skip', 'C16', (IX, "    baselines.iter().for_each(|baseline| {", "    let start = baselines.len().saturating_sub(100);\n    baselines.iter().skip(start).for_each(|baseline| {"))
bug('ix-last', 'C16', (IX, "    baselines.iter().for_each(|baseline| {", "    baselines.last().into_iter().for_each(|baseline| {"))
bug('ix-overwrite', 'C16', (IX, UPD, UPD.replace('(1.0 - v).min(result[col])', '1.0 - v')))
bug('ix-row', 'C16', (IX, UPD, UPD.replace('(v, (_, col))', '(v, (col, _))')))
bug('ix-addlines', 'C16', (IX, "    create_mat(&lines.iter().map(|s| vectorize(s)).collect::<Vec<_>>())", "    create_mat(&lines.iter().filter(|s| s.len() > 3).map(|s| vectorize(s)).collect::<Vec<_>>())"))
bug('ix-dedup', 'C16', (IX, "    create_mat(&lines.iter().map(|s| vectorize(s)).collect::<Vec<_>>())", "    create_mat(&lines.iter().step_by(2).map(|s| vectorize(s)).collect::<Vec<_>>())"))
bug('ix-feat-cap', 'C16', (IX, "        for (col, val) in vector.iter() {", "        for (col, val) in vector.iter().take(128) {"))
bug('ix-rowshift', 'C16', (IX, "            mat.add_triplet(row, col, *val / l2_norm);", "            mat.add_triplet(0, col, *val / l2_norm);"))
bug('ix-store-skip', 'C16', (MO, "            self.baselines.push(logreduce_index::index_mat(baselines))", "            if self.baselines.len() < 128 {\n                self.baselines.push(logreduce_index::index_mat(baselines))\n            }"))
bug('ix-replace', 'C16', (MO, "            self.baselines.push(logreduce_index::index_mat(baselines))", "            self.baselines = vec![logreduce_index::index_mat(baselines)]"))
bug('ix-early', 'C16', (IX, "    baselines.iter().for_each(|baseline| {\n        let distances_mat", "    for baseline in baselines {\n        if result.iter().all(|d| *d < 0.3) {\n            break;\n        }\n        let distances_mat"), (IX, UPD, UPD.replace('});','}')))
bug('ix-lower', 'C11', (IX, "    let target_vectors = lines.iter().map(|s| vectorize(s)).collect::<Vec<_>>();\n    let mut targets = create_mat(&target_vectors);\n    targets.transpose_mut();\n    cosine_distance_chunk", "    let target_vectors = lines.iter().map(|s| vectorize(&s.to_lowercase())).collect::<Vec<_>>();\n    let mut targets = create_mat(&target_vectors);\n    targets.transpose_mut();\n    cosine_distance_chunk"))
bug('ix-trim', 'C11', (IX, "    create_mat(&lines.iter().map(|s| vectorize(s)).collect::<Vec<_>>())", "    create_mat(&lines.iter().map(|s| vectorize(s.trim())).collect::<Vec<_>>())"))
bug('ix-env', 'C11', (MO, "        logreduce_tokenizer::process(line)\n", "        if std::env::var(\"LOGREDUCE_RAW\").is_ok() {\n            return line.to_string();\n        }\n        logreduce_tokenizer::process(line)\n"))
bug('ix-rand', 'C11', (IX, "            let hash = hash32(word);", "            use std::hash::{BuildHasher, Hasher};\n            let mut hasher = std::collections::hash_map::RandomState::new().build_hasher();\n            hasher.write(word.as_bytes());\n            let hash = hasher.finish() as u32;"))
bug('ix-selftok', 'C11', (MO, "            ChunkIndex::HashingTrick(_) => hashing_index::tokenize(line),", "            ChunkIndex::HashingTrick(i) if i.is_empty() => line.to_string(),\n            ChunkIndex::HashingTrick(_) => hashing_index::tokenize(line),"), (MO, "    impl HashingIndex {\n", "    impl HashingIndex {\n        pub fn is_empty(&self) -> bool {\n            self.baselines.is_empty()\n        }\n"))
bug('ix-static', 'C11', (IX, "fn vectorize(line: &str) -> SparseVec {\n", "static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nfn vectorize(line: &str) -> SparseVec {\n    let seen = SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    let line = if seen > 1_000_000 { line.trim_start() } else { line };\n"))
same('ix-iflt', 'C11 C16', (IX, UPD, """            .for_each(|(v, (_, col))| {
                let distance = 1.0 - v;
                if distance < result[col] {
                    result[col] = distance;
                }
            });
    });"""))
same('ix-fors', 'C11 C16', (IX, """    baselines.iter().for_each(|baseline| {
        let distances_mat = baseline * targets;

        distances_mat
            .iter()
            .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));
    });""", """    for baseline in baselines {
        let distances_mat = baseline * targets;
        for (v, (_row, col)) in distances_mat.iter() {
            result[col] = (1.0 - *v).min(result[col]);
        }
    }"""))
same('ix-helper', 'C11 C16', (IX, "    create_mat(&lines.iter().map(|s| vectorize(s)).collect::<Vec<_>>())\n}", "    lines_to_mat(lines)\n}\n\nfn lines_to_mat(lines: &[String]) -> FeaturesMatrix {\n    let mut vectors = Vec::with_capacity(lines.len());\n    for line in lines {\n        vectors.push(vectorize(line));\n    }\n    create_mat(&vectors)\n}"),
  (IX, "    let target_vectors = lines.iter().map(|s| vectorize(s)).collect::<Vec<_>>();\n    let mut targets = create_mat(&target_vectors);\n    targets.transpose_mut();\n    cosine_distance_chunk", "    let mut targets = lines_to_mat(lines);\n    targets.transpose_mut();\n    cosine_distance_chunk"))
same('ix-transpose-view', 'C11 C16', (IX, "    targets.transpose_mut();\n    cosine_distance_chunk(baselines, &targets)", "    let targets = targets.transpose_into();\n    cosine_distance_chunk(baselines, &targets)"), (IX, "pub fn search_mat_chunk(baselines: &[FeaturesMatrix], lines: &[String]) -> Vec<F> {\n    let target_vectors = lines.iter().map(|s| vectorize(s)).collect::<Vec<_>>();\n    let mut targets", "pub fn search_mat_chunk(baselines: &[FeaturesMatrix], lines: &[String]) -> Vec<F> {\n    let target_vectors = lines.iter().map(|s| vectorize(s)).collect::<Vec<_>>();\n    let targets"))
same('ix-indexloop', 'C11 C16', (IX, "    for (row, vector) in vectors.iter().enumerate() {\n", "    for row in 0..vectors.len() {\n        let vector = &vectors[row];\n"))
same('ix-shared', 'C11 C16', (IX, UPD, UPD.replace("result[col] = (1.0 - v).min(result[col])", "lower(&mut result[col], 1.0 - v)")), (IX, "/// Create a normalized matrix\n", "fn lower(distance: &mut F, candidate: F) {\n    *distance = candidate.min(*distance);\n}\n\n/// Create a normalized matrix\n"))
same('ix-chunkfn', 'C11 C16', (IX, """    baselines.iter().for_each(|baseline| {
        let distances_mat = baseline * targets;

        distances_mat
            .iter()
            .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));
    });
    result
}""", """    for baseline in baselines.iter() {
        update_distances(&mut result, baseline, targets);
    }
    result
}

fn update_distances(result: &mut [F], baseline: &FeaturesMatrix, targets: &FeaturesMatrix) {
    (baseline * targets)
        .iter()
        .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));
}"""), (IX, """    let distances_mat = baselines * targets;
    distances_mat
        .iter()
        .for_each(|(v, (_, col))| result[col] = (1.0 - v).min(result[col]));
    result""", "    update_distances(&mut result, baselines, targets);\n    result"))
same('ix-vecfold', 'C11 C16', (IX, "        .map(|word| {\n            let hash = hash32(word);", "        .map(|w| {\n            let hash = hash32(w);"), (IX, "            let sign = if hash >= 2147483648 { 1.0 } else { -1.0 };\n            ((hash as usize) % SIZE, sign)", "            let key = hash as usize % SIZE;\n            let sign = if hash < 2147483648 { -1.0 } else { 1.0 };\n            (key, sign)"))
same('ix-addlet', 'C11 C16', (MO, "            self.baselines.push(logreduce_index::index_mat(baselines))", "            let mat = logreduce_index::index_mat(baselines);\n            self.baselines.extend(std::iter::once(mat));"))
bug('ix-tok-trim', 'C11 C12', (PR, "            self.byte_count += line.0.len();\n            let tokens = self.index.tokenize(raw_str);", "            self.byte_count += line.0.len();\n            let tokens = self.index.tokenize(raw_str.trim_end());"))
bug('ix-tok-cap', 'C11 C13', (PR, "            let tokens = self.index.tokenize(raw_str);\n\n            // Keep", "            let tokens = self.index.tokenize(raw_str.get(..4096).unwrap_or(raw_str));\n\n            // Keep"))
same('ix-tok-let', 'C11 C12 C13', (PR, "            let tokens = self.index.tokenize(raw_str);\n\n            // Keep", "            let index: &ChunkIndex = self.index;\n            let tokens = index.tokenize(raw_str);\n\n            // Keep"))

# ---- C34
LS = """    match hm.get(k) {
        None => {
            let values = hm.values().collect::<Vec<&V>>();
            if values.len() == 1 {
                Some(values[0])
            } else {
                None
            }
        }
        Some(v) => Some(v),
    }
"""
bug('lo-ge', 'C34', (MO, "            if values.len() == 1 {", "            if !values.is_empty() {"))
bug('lo-first', 'C34', (MO, LS, "    hm.get(k).or_else(|| hm.values().next())\n"))
bug('lo-none', 'C34', (MO, LS, "    hm.get(k)\n"))
bug('lo-two', 'C34', (MO, "            if values.len() == 1 {", "            if values.len() == 1 || values.len() == 3 {"))
bug('lo-key', 'C34', (MO, "lookup_or_single(&self.indexes, index_name)", "lookup_or_single(&self.indexes, &IndexName(index_name.0.to_lowercase()))"))
bug('lo-skip', 'C34', (MO, LS, "    if hm.len() > 1 {\n        return None;\n    }\n" + LS))
same('lo-iter', 'C34', (MO, LS, """    if let Some(v) = hm.get(k) {
        return Some(v);
    }
    let mut values = hm.values();
    match (values.next(), values.next()) {
        (Some(v), None) => Some(v),
        _ => None,
    }
"""))
same('lo-len', 'C34', (MO, LS, """    if hm.len() == 1 {
        hm.values().next()
    } else {
        hm.get(k)
    }
"""))
same('lo-orelse', 'C34', (MO, LS, """    hm.get(k).or_else(|| match hm.iter().collect::<Vec<_>>().as_slice() {
        [(_, v)] => Some(*v),
        _ => None,
    })
"""))
same('lo-exact', 'C34', (MO, LS, """    hm.get(k).or_else(|| hm.values().exactly_one().ok())
"""))
same('lo-inline', 'C34', (MO, "        lookup_or_single(&self.indexes, index_name)\n", """        match self.indexes.get(index_name) {
            Some(index) => Some(index),
            None if self.indexes.len() == 1 => self.indexes.values().next(),
            None => None,
        }
"""))

# ---- C31
FI = 'model/src/files.rs'
UR = 'model/src/urls.rs'
KP = """            Ok(entry) if !entry.path_is_symlink() && entry.file_type().is_file() => true,
            Ok(_) => false,
"""
DI = """        walkdir::WalkDir::new(path)
            .into_iter()
            .filter(Source::keep_path)
            .map(move |res| match res {
                Err(e) => Err(e.into()),
                Ok(res) => Ok(Source::Local(base_len, res.into_path())),
            })
"""
GS = """                groups
                    .entry(IndexName::from_source(&source))
                    .or_insert_with(Vec::new)
                    .push(source);
"""
bug('ls-follow', 'C31', (FI, KP, KP.replace("!entry.path_is_symlink() && entry.file_type().is_file()", "entry.path().is_file()")))
bug('ls-links', 'C31', (FI, "        walkdir::WalkDir::new(path)\n", "        walkdir::WalkDir::new(path)\n            .follow_links(true)\n"))
bug('ls-notdir', 'C31', (FI, KP, KP.replace("!entry.path_is_symlink() && entry.file_type().is_file()", "!entry.path_is_symlink() && !entry.file_type().is_dir()")))
bug('ls-depth', 'C31', (FI, "        walkdir::WalkDir::new(path)\n", "        walkdir::WalkDir::new(path)\n            .max_depth(16)\n"))
bug('ls-hidden', 'C31', (FI, "            .into_iter()\n            .filter(Source::keep_path)", "            .into_iter()\n            .filter_entry(|e| !e.file_name().to_string_lossy().starts_with('.'))\n            .filter(Source::keep_path)"))
bug('ls-errs', 'C31', (FI, "            Err(_) => true,", "            Err(e) => e.io_error().map(|e| e.kind()) != Some(std::io::ErrorKind::PermissionDenied),"))
bug('ls-empty', 'C31', (FI, KP, KP.replace("entry.file_type().is_file() =>", "entry.file_type().is_file() && entry.metadata().map(|m| m.len() > 0).unwrap_or(true) =>")))
bug('ls-ok', 'C31', (MO, "            .collect::<Result<Vec<_>>>()\n            .and_then(|sources| match sources.len() {", "            .filter_map(|x| x.ok().map(Ok))\n            .collect::<Result<Vec<_>>>()\n            .and_then(|sources| match sources.len() {"))
bug('ls-take', 'C31', (MO, "            .collect::<Result<Vec<_>>>()\n            .and_then(|sources| match sources.len() {", "            .take(100_000)\n            .collect::<Result<Vec<_>>>()\n            .and_then(|sources| match sources.len() {"))
bug('ls-noempty', 'C31', (MO, "                0 => Err(anyhow::anyhow!(format!(\"Empty sources: {}\", self))),\n                _ => Ok(sources),", "                _ => Ok(sources),"))
bug('ls-novalid', 'C31', (MO, "                    .map(|source| source.is_valid())\n", "                    .map(|source| source.is_valid() || source.is_json())\n"))
bug('ls-urlskip', 'C31', (UR, "                urls.into_iter()\n                    .map(move", "                urls.into_iter()\n                    .filter(|u| u.query().is_none())\n                    .map(move"))
bug('ls-grp-name', 'C31', (MO, GS, GS.replace("IndexName::from_source(&source)", "IndexName::from_path(source.as_str())")))
bug('ls-grp-insert', 'C31', (MO, GS, "                groups.insert(IndexName::from_source(&source), vec![source]);\n"))
bug('ls-grp-or', 'C31', (MO, GS, "                groups\n                    .entry(IndexName::from_source(&source))\n                    .or_insert_with(|| vec![source]);\n"))
bug('ls-grp-skiperr', 'C31', (MO, "            for source in baseline.get_sources()? {\n                groups", "            for source in baseline.get_sources().unwrap_or_default() {\n                groups"))
bug('ls-grp-dedup', 'C31', (MO, GS, """                let group = groups
                    .entry(IndexName::from_source(&source))
                    .or_insert_with(Vec::new);
                if group.last() != Some(&source) && group.len() < 4096 {
                    group.push(source);
                }
"""))
same('ls-kp-if', 'C31', (FI, KP, """            Ok(entry) => {
                let kind = entry.file_type();
                kind.is_file() && !kind.is_symlink()
            }
"""))
same('ls-kp-nosym', 'C31', (FI, KP, KP.replace("!entry.path_is_symlink() && ", "")))
same('ls-kp-meta', 'C31', (FI, "        walkdir::WalkDir::new(path)\n", "        walkdir::WalkDir::new(path)\n            .follow_links(false)\n            .sort_by_file_name()\n"))
same('ls-filtermap', 'C31', (FI, DI, """        walkdir::WalkDir::new(path)
            .into_iter()
            .filter_map(move |res| match res {
                Err(e) => Some(Err(e.into())),
                Ok(entry) if entry.file_type().is_file() => {
                    Some(Ok(Source::Local(base_len, entry.path().to_path_buf())))
                }
                Ok(_) => None,
            })
"""))
same('ls-loop', 'C31', (MO, """        self.get_sources_iter()
            .filter(|source| {
                source
                    .as_ref()
                    .map(|source| source.is_valid())
                    .unwrap_or(true)
            })
            .collect::<Result<Vec<_>>>()
            .and_then(|sources| match sources.len() {
                0 => Err(anyhow::anyhow!(format!("Empty sources: {}", self))),
                _ => Ok(sources),
            })
""", """        let mut sources = Vec::new();
        for source in self.get_sources_iter() {
            let source = source?;
            if source.is_valid() {
                sources.push(source);
            }
        }
        if sources.is_empty() {
            return Err(anyhow::anyhow!(format!("Empty sources: {}", self)));
        }
        Ok(sources)
"""))
same('ls-match', 'C31', (MO, """                source
                    .as_ref()
                    .map(|source| source.is_valid())
                    .unwrap_or(true)
            })
            .collect""", """                match source {
                    Ok(source) => source.is_valid(),
                    Err(_) => true,
                }
            })
            .collect"""))
same('ls-grp-default', 'C31', (MO, GS, """                let name = IndexName::from_source(&source);
                let group: &mut Vec<Source> = groups.entry(name).or_default();
                group.push(source);
"""))
same('ls-grp-getmut', 'C31', (MO, GS, """                let name = IndexName::from_source(&source);
                if let Some(group) = groups.get_mut(&name) {
                    let group: &mut Vec<Source> = group;
                    group.push(source);
                } else {
                    groups.insert(name, vec![source]);
                }
"""))
same('ls-grp-foreach', 'C31', (MO, "            for source in baseline.get_sources()? {\n" + GS + "            }\n", """            let sources = baseline.get_sources()?;
            sources.into_iter().for_each(|source| {
                groups
                    .entry(IndexName::from_source(&source))
                    .or_insert_with(Vec::new)
                    .push(source)
            });
"""))
same('ls-grp-tryfold', 'C31', (MO, "        let mut groups = HashMap::new();\n        for baseline in baselines {\n            for source in baseline.get_sources()? {\n" + GS + "            }\n        }\n        Ok(groups)\n", """        baselines
            .iter()
            .try_fold(HashMap::new(), |mut groups, baseline| {
                for source in baseline.get_sources()? {
                    groups
                        .entry(IndexName::from_source(&source))
                        .or_insert_with(Vec::new)
                        .push(source);
                }
                Ok(groups)
            })
"""))
same('ls-urlfor', 'C31', (UR, """            Ok(urls) => Box::new(
                urls.into_iter()
                    .map(move |u| Ok(Source::Remote(base_len, u))),
            ),
""", """            Ok(urls) => {
                let mut sources = Vec::with_capacity(urls.len());
                for url in urls {
                    sources.push(Ok(Source::Remote(base_len, url)));
                }
                Box::new(sources.into_iter())
            }
"""))

# ---- C23, C24
SV = """    match model_path {
        Some(ref path) if !path.exists() => model.save(path),
        _ => Ok(()),
    }?;
"""
PM = """    let model = match model_path {
        Some(ref path) if path.exists() => match baselines {
            None => Model::load(path),
            Some(_) => Err(anyhow::anyhow!("Ambiguous baselines and model provided")),
        },
"""
WR = """            std::fs::write(
                file,
                logreduce_report::render(&report).context("Error rendering the report")?,
            )
            .context("Failed to write the report")
"""
bug('cm-always-save', 'C23', (CL, SV, SV.replace("if !path.exists() ", "")))
bug('cm-ambig', 'C23', (CL, PM, PM.replace("""match baselines {
            None => Model::load(path),
            Some(_) => Err(anyhow::anyhow!("Ambiguous baselines and model provided")),
        },""", "Model::load(path),")))
bug('cm-never-save', 'C23', (CL, SV, SV.replace("!path.exists()", "path.parent().map(|p| p.exists()).unwrap_or(false) && !path.exists()")))
bug('cm-retrain', 'C23', (CL, PM, PM.replace("None => Model::load(path),", "None => Model::load(path).or_else(|_| {\n                Model::train(\n                    output_mode,\n                    content.discover_baselines()?,\n                    logreduce_model::hashing_index::new,\n                )\n            }),")))
bug('cm-discover', 'C23', (CL, "                Some(baselines) => baselines\n                    .into_iter()\n                    .map(Content::from_input)\n                    .collect::<Result<Vec<_>>>(),", "                Some(baselines) if baselines.len() > 1 => baselines\n                    .into_iter()\n                    .map(Content::from_input)\n                    .collect::<Result<Vec<_>>>(),\n                Some(_) => content.discover_baselines(),"))
bug('cm-skipbad', 'C23 C24', (CL, "                Some(baselines) => baselines\n                    .into_iter()\n                    .map(Content::from_input)\n", "                Some(baselines) => baselines\n                    .into_iter()\n                    .map(Content::from_input)\n                    .filter(|x| x.is_ok())\n"))
bug('cm-train-nomodel', 'C23', (CL, """                let model_path = self.model.ok_or_else(|| {
                    anyhow::anyhow!(
                        "A output file path is required, please add a `--model FILE` argument"
                    )
                })?;
""", """                let model_path = self.model.unwrap_or_else(|| PathBuf::from("logreduce.model"));
"""))
bug('cm-save-late', 'C23', (CL, SV, ""), (CL, "    tracing::debug!(\"Inspecting\");\n    match report {\n        None => process_live(output_mode, &content, &model),", "    tracing::debug!(\"Inspecting\");\n    match report {\n        None => {\n            if let Some(ref path) = model_path {\n                if !path.exists() {\n                    model.save(path)?;\n                }\n            }\n            process_live(output_mode, &content, &model)\n        }"))
bug('cm-report-ignored', 'C23', (CL, "                process(progress, self.report, self.model, None, Input::Path(path))", "                process(progress, self.report, None, None, Input::Path(path))"))
bug('cm-first', 'C23', (CL, "                Some(src.into_iter().map(Input::from_string).collect()),", "                Some(src.into_iter().take(1).map(Input::from_string).collect()),"))
bug('ce-save-ignored', 'C24', (CL, SV, "    if let Some(ref path) = model_path {\n        if !path.exists() {\n            if let Err(e) = model.save(path) {\n                tracing::error!(\"Can't save: {}\", e);\n            }\n        }\n    }\n"))
bug('ce-write', 'C24', (CL, WR, WR.replace('            .context("Failed to write the report")\n', '            .or_else(|e| {\n                println!("{:?}", e);\n                Ok(())\n            })\n')))
bug('ce-render', 'C24', (CL, WR, WR.replace('logreduce_report::render(&report).context("Error rendering the report")?', 'logreduce_report::render(&report).unwrap_or_default()')))
bug('ce-sources', 'C24', (CL, "    for source in content.get_sources()? {", "    for source in content.get_sources().unwrap_or_default() {"))
bug('ce-main', 'C24', (CL, """    Cli::parse().run(output_mode).map_err(|e| {
        // Ensure the exception happens on a new line
        if output_mode.inlined() {
            println!();
        }
        e
    })
""", """    if let Err(e) = Cli::parse().run(output_mode) {
        // Ensure the exception happens on a new line
        if output_mode.inlined() {
            println!();
        }
        eprintln!("Error: {:?}", e);
        if e.downcast_ref::<std::io::Error>().is_none() {
            return Err(e);
        }
    }
    Ok(())
"""))
bug('ce-nowrite', 'C24', (CL, '            println!("{:?}: Writing report...", file);\n', '            if report.total_anomaly_count == 0 {\n                return Ok(());\n            }\n            println!("{:?}: Writing report...", file);\n'))
bug('ce-exit0', 'C24', (CL, "            let report = model.report(output_mode, content)?;", "            let report = match model.report(output_mode, content) {\n                Ok(report) => report,\n                Err(e) => {\n                    println!(\"{:?}\", e);\n                    std::process::exit(0)\n                }\n            };"))
bug('ce-train', 'C24', (CL, "                model.save(&model_path)\n", "                model.save(&model_path).ok();\n                Ok(())\n"))
bug('ce-fallback', 'C24', (CL, "                None => content.discover_baselines(),\n", "                None => content.discover_baselines().or_else(|_| Ok(vec![content.clone()])),\n"))
same('ce-main-match', 'C23 C24', (CL, """    Cli::parse().run(output_mode).map_err(|e| {
        // Ensure the exception happens on a new line
        if output_mode.inlined() {
            println!();
        }
        e
    })
""", """    let cli = Cli::parse();
    let result = cli.run(output_mode);
    if result.is_err() && output_mode.inlined() {
        // Ensure the exception happens on a new line
        println!();
    }
    result
"""))
same('cm-helper', 'C23 C24', (CL, PM, """    let existing = matches!(model_path, Some(ref path) if path.exists());
    let model = match model_path {
        Some(ref path) if existing => load_model(path, baselines.is_some()),
"""), (CL, SV, """    if let Some(path) = &model_path {
        if !existing {
            model.save(path)?;
        }
    }
"""), (CL, "fn debug_groups(", """fn load_model(path: &std::path::Path, ambiguous: bool) -> Result<Model> {
    if ambiguous {
        return Err(anyhow::anyhow!("Ambiguous baselines and model provided"));
    }
    Model::load(path)
}

fn debug_groups("""))
same('cm-loop', 'C23 C24', (CL, "                Some(baselines) => baselines\n                    .into_iter()\n                    .map(Content::from_input)\n                    .collect::<Result<Vec<_>>>(),", """                Some(baselines) => {
                    let mut contents = Vec::with_capacity(baselines.len());
                    for baseline in baselines {
                        contents.push(Content::from_input(baseline)?);
                    }
                    Ok(contents)
                }"""))
same('cm-report-fn', 'C23 C24', (CL, WR, """            let html = logreduce_report::render(&report).context("Error rendering the report")?;
            std::fs::write(&file, html).context("Failed to write the report")?;
            Ok(())
"""))
same('cm-iflet', 'C23 C24', (CL, SV, """    if let Some(ref path) = model_path {
        if !path.exists() {
            model.save(path)?;
        }
    }
"""))
same('cm-train-early', 'C23 C24', (CL, """                let model_path = self.model.ok_or_else(|| {
                    anyhow::anyhow!(
                        "A output file path is required, please add a `--model FILE` argument"
                    )
                })?;
""", """                let model_path = match self.model {
                    Some(path) => path,
                    None => anyhow::bail!(
                        "A output file path is required, please add a `--model FILE` argument"
                    ),
                };
"""))
same('cm-live-first', 'C23 C24', (CL, "    match report {\n        None => process_live(output_mode, &content, &model),\n        Some(file) => {", "    let file = match report {\n        None => return process_live(output_mode, &content, &model),\n        Some(file) => file,\n    };\n    {\n        {"))

# ---- C17
IT = 'iterator/src/iterator.rs'
bug('bl-pad-err', 'C17', (IT, "        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n        res", "        if let Ok(n) = res.as_ref() {\n            self.buf.truncate(pos + n);\n        }\n        res"))
bug('bl-no-trunc', 'C17', (IT, "        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n", ""))
bug('bl-trunc-n', 'C17', (IT, "        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n", "        self.buf.truncate(*res.as_ref().unwrap_or(&0));\n"))
bug('bl-read-start', 'C17', (IT, "self.reader.read(&mut self.buf[pos..])", "self.reader.read(&mut self.buf[pos.min(self.prev_pos)..])"))
bug('bl-err-eof', 'C17', (IT, "            Err(e) => Step::Done(Some(Err(e))),\n        }\n    }\n\n    // Append", "            Err(_) => {\n                self.state = State::EoF;\n                Step::Done(None)\n            }\n        }\n    }\n\n    // Append"))
bug('bl-err-retry', 'C17', (IT, "            Err(e) => Step::Done(Some(Err(e))),\n        }\n    }\n\n    // Append", "            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Step::Read,\n            Err(e) => Step::Done(Some(Err(e))),\n        }\n    }\n\n    // Append"))
bug('bl-err-drop', 'C17', (IT, "            Err(e) => Step::Done(Some(Err(e))),\n        }\n    }\n}", "            Err(_) => Step::Done(None),\n        }\n    }\n}"))
bug('bl-eof-early', 'C17', (IT, "            // We read some data.\n            Ok(n) if n > 0 => Step::Scan,", "            // We read some data.\n            Ok(n) if n > 0 => {\n                if n < self.chunk_size && pos == 0 && self.line_count > 0 {\n                    self.state = State::EoF;\n                }\n                Step::Scan\n            }"))
bug('bl-leftover', 'C17', (IT, "            Ok(_) if pos > 0 => {", "            Ok(_) if pos > 1 => {"))
bug('bl-leftover-cut', 'C17', (IT, "self.buf.split_to(pos).freeze(), self.line_count", "self.buf.split_to(pos - usize::from(self.escaped)).freeze(), self.line_count"))
bug('bl-drop-short', 'C17', (IT, "                if res.is_empty() {", "                if res.iter().all(|c| *c == b' ') {"))
bug('bl-drop-all', 'C17', (IT, "                self.buf.advance(pos + sep.len());\n                Step::Scan\n            }\n\n            // Step E", "                self.discard();\n                Step::Scan\n            }\n\n            // Step E"))
bug('bl-limit-none', 'C17', (IT, "            None if self.buf.len() > self.max_line_length => {", "            None if self.buf.len() > 0 && self.line_count > 9 => {"))
bug('bl-limit-gone', 'C17', (IT, "            Some((pos, sep)) if pos > self.max_line_length => {", "            Some((pos, sep)) if pos > self.max_line_length && self.split_json.is_none() => {"))
bug('bl-drop-eof', 'C17', (IT, "                Some((pos, sep)) => {\n                    self.buf.advance(pos + sep.len());\n                    Step::Scan", "                Some((pos, sep)) => {\n                    self.buf.advance(pos + sep.len());\n                    if self.buf.is_empty() {\n                        self.state = State::EoF;\n                        return Step::Done(None);\n                    }\n                    Step::Scan"))
bug('bl-eof-state', 'C17', (IT, "State::Scanning(_) if self.buf.is_empty() => Step::Read,", "State::Scanning(_) if self.buf.is_empty() && self.prev_pos > 0 => Step::Done(None),\n            State::Scanning(_) if self.buf.is_empty() => Step::Read,"))
same('bl-match-read', 'C17', (IT, "        let res = self.reader.read(&mut self.buf[pos..]);\n        // Only keep the data that was actually read.\n        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n        res", "        match self.reader.read(&mut self.buf[pos..]) {\n            Ok(n) => {\n                self.buf.truncate(pos + n);\n                Ok(n)\n            }\n            Err(e) => {\n                self.buf.truncate(pos);\n                Err(e)\n            }\n        }"))
same('bl-loop-if', 'C17', (IT, "                if res.is_empty() {\n                    Step::Scan\n                } else {\n                    Step::Done(Some(Ok((res, self.line_count))))\n                }", "                if !res.is_empty() {\n                    return Step::Done(Some(Ok((res, self.line_count))));\n                }\n                Step::Scan"))
same('bl-empty-first', 'C17', (IT, "                let res = self.buf.split_to(pos).freeze();\n                // Step D: advance the starting position\n                self.buf.advance(sep.len());\n                if res.is_empty() {\n                    Step::Scan\n                } else {\n                    Step::Done(Some(Ok((res, self.line_count))))\n                }", "                if pos == 0 {\n                    self.buf.advance(sep.len());\n                    Step::Scan\n                } else {\n                    let line = self.buf.split_to(pos);\n                    self.buf.advance(sep.len());\n                    Step::Done(Some(Ok((line.freeze(), self.line_count))))\n                }"))
same('bl-clear', 'C17', (IT, "        self.buf.advance(self.buf.len() - keep);", "        if keep == 0 {\n            self.buf.clear();\n        } else {\n            self.buf.advance(self.buf.len() - 1);\n        }"))
same('bl-helper', 'C17', (IT, "            Ok(_) if pos > 0 => {\n                self.update_line_counter(State::EoF);\n                Step::Done(Some(Ok((self.buf.split_to(pos).freeze(), self.line_count))))\n            }", "            Ok(_) if pos != 0 => self.last_line(),"), (IT, "    // Append a new chunk to the buffer\n", "    fn last_line(&mut self) -> Step {\n        self.update_line_counter(State::EoF);\n        let line = self.buf.split().freeze();\n        let number = self.line_count;\n        Step::Done(Some(Ok((line, number))))\n    }\n\n    // Append a new chunk to the buffer\n"))
same('bl-chunk', 'C17', (IT, "        let pos = self.buf.len();\n        self.buf.resize(pos + self.chunk_size, 0);\n        let res = self.reader.read(&mut self.buf[pos..]);\n        // Only keep the data that was actually read.\n        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));\n        res", "        let mut chunk = vec![0; self.chunk_size];\n        let count = self.reader.read(&mut chunk)?;\n        self.buf.extend_from_slice(&chunk[..count]);\n        Ok(count)"))
same('bl-recursive', 'C17', (IT, "        let mut step = match self.state {\n            State::EoF => Step::Done(None),\n            State::Scanning(_) if self.buf.is_empty() => Step::Read,\n            State::Scanning(_) => Step::Scan,\n        };", "        if self.state == State::EoF {\n            return None;\n        }\n        let mut step = if self.buf.is_empty() { Step::Read } else { Step::Scan };"))

# ---- C27 C28 C29
H = 'httpdir/src/httpdir.rs'
bug('cw-no-status', 'C27', (H, "        .send()\n        .and_then(|resp| resp.error_for_status())\n    {", "        .send()\n    {"))
bug('cw-err-empty', 'C27', (H, 'Err(e) => Err(mk_error(&format!("Reqwest failed {}", e))),', 'Err(e) if e.status().is_some() => Ok(Vec::new()),\n        Err(e) => Err(mk_error(&format!("Reqwest failed {}", e))),'))
bug('cw-text-empty', 'C27', (H, 'Err(e) => Err(mk_error(&format!("Response failed {}", e))),', 'Err(_) => Ok(Vec::new()),'))
bug('cw-no-report', 'C27', (H, "Err(e) => tx.send(Some(Err(e))).unwrap(),", "Err(_) => tx.send(None).unwrap(),"))
bug('cw-link-filter', 'C27', (H, "        // .map(|link| dbg!(link))\n", "        .filter(|link| !link.starts_with('/'))\n"))
bug('cw-link-err', 'C27', (H, "                .map_err(|e| mk_error(&format!(\"Invalid link {}\", e)))\n        })\n        .collect()", "                .map_err(|e| mk_error(&format!(\"Invalid link {}\", e)))\n        })\n        .filter(|l| l.is_ok())\n        .collect()"))
bug('cw-etc', 'C27', (H, 'if url.path().ends_with("/etc/") {', 'if url.path().contains("etc") && url.path().ends_with("config/") {'))
bug('cw-break', 'C27', (H, "                            continue;\n", "                            break;\n"))
bug('cw-dir-file', 'C27', (H, "    if url.path().ends_with('/') {\n        Some(url.clone())\n    } else if", "    if url.path().ends_with(\"//\") {\n        None\n    } else if url.path().ends_with('/') {\n        Some(url.clone())\n    } else if"))
bug('cw-base', 'C27', (H, "let url = resp.url().clone();", "let mut url = resp.url().clone();\n            url.set_path(\"/\");"))
bug('cw-no-join', 'C27', (H, "        self.workers.join();\n", ""))
bug('cw-no-panic', 'C27', (H, "if self.workers.panic_count() > 0 {\n            Err", "if self.workers.panic_count() > 1 {\n            Err"))
bug('cw-drop-errors', 'C27', (H, "self.rx.try_iter().flatten().collect()", "self.rx\n                .try_iter()\n                .flatten()\n                .filter(|r| r.is_ok())\n                .collect()"))
bug('cw-take', 'C27', (H, "self.rx.try_iter().flatten().collect()", "self.rx.try_iter().take(10000).flatten().collect()"))
bug('cw-sibling', 'C28', (H, "if min_len > self.min_len {", "if min_len >= self.min_len {"))
bug('cw-same-visitor', 'C28', (H, "        if let Some(visitor) = visitor.visit(&url) {", "        if let Some(next) = visitor.visit(&url) {\n            let visitor = if url.query().is_some() {\n                Visitor {\n                    min_len: visitor.min_len,\n                }\n            } else {\n                next\n            };"))
bug('cw-url-len', 'C28', (H, "        let min_len = url.path().len();\n        if", "        let min_len = url.as_str().len();\n        if"))
bug('cw-new-visitor', 'C28', (H, "Crawler::process(&visitor, &client, &sub_pool, &tx, url)", "Crawler::process(&Visitor::new(), &client, &sub_pool, &tx, url)"))
bug('cw-done-late', 'C29', (H, "            let done = self.is_done();\n            match self.rx.try_recv() {", "            match self.rx.try_recv() {"), (H, "Err(_) if done => return None,", "Err(_) if self.is_done() => return None,"))
bug('cw-active-only', 'C29', (H, "(self.workers.active_count() + self.workers.queued_count() == 0", "(self.workers.active_count() == 0"))
bug('cw-panic-end', 'C29', (H, "                // ensure that when there is a panic, we propagate the error.\n                && self.workers.panic_count() == 0)", ")"))
bug('cw-timeout-drop', 'C29', (H, "if let Ok(Some(r)) = self.rx.recv_timeout(Duration::from_secs(1)) {", "if let Ok(Some(Ok(r))) = self.rx.recv_timeout(Duration::from_secs(1)) {"), (H, "                        return Some(r);\n                    }\n                    // A worker", "                        return Some(Ok(r));\n                    }\n                    // A worker"))
bug('cw-timeout-end', 'C29', (H, "                    if let Ok(Some(r)) = self.rx.recv_timeout(Duration::from_secs(1)) {\n                        return Some(r);\n                    }", "                    return self.rx.recv_timeout(Duration::from_secs(1)).ok().flatten();"))
bug('cw-abort-err', 'C29', (H, "                Ok(Some(r)) => return Some(r),", "                Ok(Some(r)) => {\n                    self.abort = r.is_err();\n                    return Some(r);\n                }"))
same('cw-for-match', 'C27 C28 C29', (H, "            pool.execute(move || match http_list(&client, url) {\n                // We decoded some urls.\n                Ok(urls) => {\n                    for url in urls {\n                        if url.path().ends_with(\"/etc/\") {\n                            // Special case to avoid system config directory\n                            continue;\n                        } else if let Some(url) = path_dir(&url) {\n                            // Recursively call the handler on sub directory.\n                            Crawler::process(&visitor, &client, &sub_pool, &tx, url)\n                        } else {\n                            // Send file location to the mpsc channel.\n                            tx.send(Some(Ok(url))).unwrap()\n                        }\n                    }\n                    // Indicate we are done.\n                    tx.send(None).unwrap()\n                }\n\n                // An error happened, propagates it.\n                Err(e) => tx.send(Some(Err(e))).unwrap(),\n            });", "            pool.execute(move || {\n                let urls = match http_list(&client, url) {\n                    Ok(urls) => urls,\n                    Err(e) => {\n                        tx.send(Some(Err(e))).unwrap();\n                        return;\n                    }\n                };\n                let config = |url: &Url| url.path().ends_with(\"/etc/\");\n                for link in urls.into_iter().filter(|u| !config(u)) {\n                    match path_dir(&link) {\n                        Some(dir) => Crawler::process(&visitor, &client, &sub_pool, &tx, dir),\n                        None => tx.send(Some(Ok(link))).unwrap(),\n                    }\n                }\n                tx.send(None).unwrap()\n            });"))
same('cw-visit-early', 'C27 C28', (H, "        if min_len > self.min_len {\n            Some(Visitor { min_len })\n        } else {\n            None\n        }", "        if min_len <= self.min_len {\n            return None;\n        }\n        Some(Visitor { min_len })"))
same('cw-list-loop', 'C27 C28', (H, "            self.rx.try_iter().flatten().collect()", "            let mut urls = Vec::new();\n            for message in self.rx.try_iter() {\n                match message {\n                    Some(Ok(url)) => urls.push(url),\n                    Some(Err(e)) => return Err(e),\n                    None => {}\n                }\n            }\n            Ok(urls)"))
same('cw-parse-loop', 'C27 C28', (H, "    RE.captures_iter(page)\n        .map(|c| c.get(1).unwrap().as_str())\n        // .map(|link| dbg!(link))\n        .map(|link| {\n            base_url\n                .join(link)\n                .map_err(|e| mk_error(&format!(\"Invalid link {}\", e)))\n        })\n        .collect()", "    let mut urls = Vec::new();\n    for captures in RE.captures_iter(page) {\n        let url = base_url\n            .join(&captures[1])\n            .map_err(|e| mk_error(&format!(\"Invalid link {}\", e)))?;\n        urls.push(url);\n    }\n    Ok(urls)"))
same('cw-http-question', 'C27 C28', (H, "    match client\n        .get(url)\n        .send()\n        .and_then(|resp| resp.error_for_status())\n    {\n        Ok(resp) => {\n            let url = resp.url().clone();\n            match resp.text() {\n                Ok(text) => parse_index_of(url, &text),\n                Err(e) => Err(mk_error(&format!(\"Response failed {}\", e))),\n            }\n        }\n        Err(e) => Err(mk_error(&format!(\"Reqwest failed {}\", e))),\n    }", "    let failed = |e: reqwest::Error| mk_error(&format!(\"Reqwest failed {}\", e));\n    let resp = client.get(url).send().map_err(failed)?;\n    let resp = resp.error_for_status().map_err(failed)?;\n    let base = resp.url().clone();\n    let page = resp\n        .text()\n        .map_err(|e| mk_error(&format!(\"Response failed {}\", e)))?;\n    parse_index_of(base, &page)"))
same('cw-done-inline', 'C29', (H, "            let done = self.is_done();\n", "            let busy = self.workers.active_count() > 0 || self.workers.queued_count() > 0;\n            let done = self.abort || (!busy && self.workers.panic_count() == 0);\n"), (H, "    fn is_done(&self) -> bool {", "    #[allow(dead_code)]\n    fn is_done(&self) -> bool {"))
same('cw-next-flat', 'C29', (H, "                // A worker finished it's job, we keep on iterating.\n                Ok(None) => {}\n", "                // A worker finished it's job, we keep on iterating.\n                Ok(None) => continue,\n"), (H, "                    if let Ok(Some(r)) = self.rx.recv_timeout(Duration::from_secs(1)) {\n                        return Some(r);\n                    }", "                    match self.rx.recv_timeout(Duration::from_secs(1)) {\n                        Ok(Some(r)) => return Some(r),\n                        Ok(None) | Err(_) => {}\n                    }"))
same('cw-dir-helper', 'C27 C28', (H, "fn path_dir(url: &Url) -> Option<Url> {\n    if url.path().ends_with('/') {\n        Some(url.clone())\n    } else if url.path().ends_with(\"/index.html\") {", "fn path_dir(url: &Url) -> Option<Url> {\n    let path = url.path();\n    if path.ends_with('/') {\n        return Some(url.clone());\n    }\n    if path.ends_with(\"/index.html\") {"))

# ---- C35
bug('nm-zero', 'C35', (FI, "let base_len = path.to_str().map(|s| s.len()).unwrap_or(0);", "let base_len = 0;"))
bug('nm-name', 'C35', (FI, "let base_len = path.to_str().map(|s| s.len()).unwrap_or(0);", "let base_len = path.file_name().and_then(|s| s.to_str()).map(|s| s.len()).unwrap_or(0);"))
bug('nm-parent', 'C35', (FI, "let base_len = path.to_str().map(|s| s.len()).unwrap_or(0);", "let base_len = path.parent().and_then(|s| s.to_str()).map(|s| s.len()).unwrap_or(0);"))
bug('nm-chars', 'C35', (FI, "let base_len = path.to_str().map(|s| s.len()).unwrap_or(0);", "let base_len = path.to_str().map(|s| s.chars().count()).unwrap_or(0);"))
bug('nm-url-two', 'C35', (UR, "url.as_str().trim_end_matches('/').len() + 1", "url.as_str().trim_end_matches('/').len() + 2"))
bug('nm-url-path', 'C35', (UR, "url.as_str().trim_end_matches('/').len() + 1", "url.path().trim_end_matches('/').len() + 1"))
bug('nm-url-trimp', 'C35', (UR, "url.as_str().trim_end_matches('/').len() + 1", "url.as_str().trim_end_matches(\"logs/\").len() + 1"))
bug('nm-url-zero', 'C35', (UR, "Source::Remote(base_len, u)", "Source::Remote(0, u)"))
bug('nm-rel-empty', 'C35', (MO, "url.as_str().get(*base_len..).unwrap_or(url.as_str())", "url.as_str().get(*base_len..).unwrap_or(\"\")"))
bug('nm-rel-empty-l', 'C35', (MO, "path.get(*base_len..).unwrap_or(path)", "path.get(*base_len..).unwrap_or(\"\")"))
bug('nm-rel-panic', 'C35', (MO, "path.get(*base_len..).unwrap_or(path)", "&path[*base_len..]"))
bug('nm-rel-prefix', 'C35', (MO, "path.get(*base_len..).unwrap_or(path)", "path.get(..*base_len).unwrap_or(path)"))
bug('nm-rel-off', 'C35', (MO, "path.get(*base_len..).unwrap_or(path)", "path.get(*base_len + 1..).unwrap_or(path)"))
bug('nm-ctor', 'C35', (FI, "let src = Source::Local(0, path.to_path_buf());", "let src = Source::Local(path.to_str().map_or(0, |s| s.len()), path.to_path_buf());"))
bug('nm-ctor-url', 'C35', (UR, "Ok(Content::File(Source::Remote(0, url)))", "Ok(Content::File(Source::Remote(url.path().len(), url)))"))
bug('nm-source-whole', 'C35', (MO, "IndexName::from_path(source.get_relative())", "IndexName::from_path(source.as_str())"))
same('nm-trim', 'C35 C31', (FI, "let base_len = path.to_str().map(|s| s.len()).unwrap_or(0);", "let base_len = match path.to_str() {\n            Some(s) => s.trim_end_matches('/').len() + 1,\n            None => 0,\n        };"))
same('nm-map-or', 'C35 C31', (FI, "let base_len = path.to_str().map(|s| s.len()).unwrap_or(0);", "let base_len = path.to_str().map_or(0, str::len);"))
same('nm-url-nosep', 'C35 C31', (UR, "url.as_str().trim_end_matches('/').len() + 1", "url.as_str().trim_end_matches('/').len()"))
same('nm-url-helper', 'C35 C31', (UR, "let base_len = url.as_str().trim_end_matches('/').len() + 1;", "fn prefix(u: &Url) -> usize {\n            let trimmed = u.as_str().trim_end_matches('/');\n            1 + trimmed.len()\n        }\n        let base_len = prefix(url);"))
same('nm-rel-match', 'C35', (MO, "path.get(*base_len..).unwrap_or(path)", "match path.get(*base_len..) {\n                    Some(rel) => rel,\n                    None => path,\n                }"))
same('nm-rel-helper', 'C35', (MO, "path.get(*base_len..).unwrap_or(path)", "relative_to(path, *base_len)"), (MO, "impl Source {\n    pub fn from_pathbuf", "fn relative_to(text: &str, base: usize) -> &str {\n    if text.is_char_boundary(base) {\n        &text[base..]\n    } else {\n        text\n    }\n}\n\nimpl Source {\n    pub fn from_pathbuf"))
same('nm-rel-tostring', 'C35', (MO, "IndexName::from_path(source.get_relative())", "let name = source.get_relative().to_string();\n        IndexName::from_path(&name)"))

# ---- C32
bug('op-inverted', 'C32', (R, 'if extension == "gz" {', 'if extension != "gz" {'))
bug('op-tgz', 'C32', (R, 'if extension == "gz" {', 'if extension == "gz" || extension == "tgz" {'))
bug('op-never', 'C32', (R, 'if extension == "gz" {', 'if extension == ".gz" {'))
bug('op-contains', 'C32', (R, 'if extension == "gz" {', 'if path.to_string_lossy().contains("gz") && extension != "" {'))
bug('op-fallback', 'C32', (R, 'let fp = File::open(path)?;', 'let fp = File::open(path).or_else(|_| File::open(path.with_extension("gz")))?;'))
bug('op-rotated', 'C32', (FI, 'crate::reader::from_path(path).context("Failed to open file")', 'crate::reader::from_path(&path.with_extension("log")).context("Failed to open file")'))
bug('op-url-base', 'C32', (UR, "let base = url.as_str().get(..prefix).unwrap_or(url.as_str());\n            crate::reader::from_url(&Url::parse(base)?, url)", "let base = url.as_str().get(..prefix).unwrap_or(url.as_str());\n            crate::reader::from_url(url, &Url::parse(base)?)"))
bug('op-url-tail', 'C32', (UR, "let base = url.as_str().get(..prefix).unwrap_or(url.as_str());", "let base = url.as_str().get(prefix..).unwrap_or(url.as_str());"))
bug('op-url-off', 'C32', (UR, "let base = url.as_str().get(..prefix).unwrap_or(url.as_str());", "let base = url.as_str().get(..prefix + 1).unwrap_or(url.as_str());"))
bug('op-url-trim', 'C32', (UR, "crate::reader::from_url(&Url::parse(base)?, url)", "crate::reader::from_url(&Url::parse(base)?, &url.join(\"/\")?)"))
bug('op-head', 'C32', (R, "CLIENT\n            .get(url.clone())", "CLIENT\n            .post(url.clone())"))
bug('op-hit-flat', 'C32', (R, "cache.map(Gz)", "cache.map(|gz| Flat(gz.into_inner()))"))
bug('op-kind-swap', 'C32', (FI, "Ok(Content::Directory(src))", "Ok(Content::File(src))"), (FI, "} else if path.is_file() {\n            Ok(Content::File(src))", "} else if path.is_file() {\n            Ok(Content::Directory(src))"))
bug('op-kind-any', 'C32', (FI, "} else if path.is_file() {", "} else if path.exists() || path.extension().is_some() {"))
bug('op-kind-url', 'C32', (UR, "} else if url.as_str().ends_with('/') {", "} else if url.path().ends_with('/') {"))
bug('op-kind-url-inv', 'C32', (UR, "} else if url.as_str().ends_with('/') {", "} else if !url.as_str().ends_with('/') {"))
bug('op-kind-host', 'C32', (UR, "if !url.has_authority() {", "if url.cannot_be_a_base() {"))
bug('op-input', 'C32', (MO, "Input::Path(path_str) => Content::from_path(Path::new(&path_str)),", "Input::Path(path_str) => Content::from_path(Path::new(path_str.trim())),"))
bug('op-caller', 'C32', (MO, "            Source::Remote(prefix, url) => Source::url_open(*prefix, url),\n        }?;", "            Source::Remote(_, url) => Source::url_open(url.path().len(), url),\n        }?;"))
bug('op-caller-path', 'C32', (MO, "            Source::Local(_, path_buf) => Source::file_open(path_buf.as_path()),\n            Source::Remote(prefix, url) => Source::url_open(*prefix, url),\n        }?;", "            Source::Local(_, _) => Source::file_open(Path::new(source.get_relative())),\n            Source::Remote(prefix, url) => Source::url_open(*prefix, url),\n        }?;"))
same('op-match', 'C32', (R, '    Ok(if extension == "gz" {\n        Gz(GzDecoder::new(fp))\n    } else {\n        Flat(fp)\n    })', '    match extension.to_str() {\n        Some("gz") => Ok(Gz(GzDecoder::new(fp))),\n        _ => Ok(Flat(fp)),\n    }'))
same('op-is-some', 'C32', (R, '    let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));\n    Ok(if extension == "gz" {', '    let compressed = path.extension().map_or(false, |ext| ext == "gz");\n    Ok(if compressed {'))
same('op-is-gz', 'C32', (R, '    let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));\n    Ok(if extension == "gz" {', '    Ok(if is_gz(path) {'), (R, "pub fn from_path(", "fn is_gz(path: &Path) -> bool {\n    matches!(path.extension(), Some(ext) if ext == \"gz\")\n}\n\npub fn from_path("))
same('op-early', 'C32', (R, '    Ok(if extension == "gz" {\n        Gz(GzDecoder::new(fp))\n    } else {\n        Flat(fp)\n    })', '    if extension != "gz" {\n        return Ok(Flat(fp));\n    }\n    Ok(Gz(GzDecoder::new(fp)))'))
same('op-ext-first', 'C32', (R, 'let fp = File::open(path)?;\n    let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));', 'let extension = path.extension().unwrap_or_default();\n    let fp = File::open(path)?;'))
same('op-url-match', 'C32', (UR, "        if prefix == 0 {\n            crate::reader::from_url(url, url)\n        } else {\n            let base = url.as_str().get(..prefix).unwrap_or(url.as_str());\n            crate::reader::from_url(&Url::parse(base)?, url)\n        }", "        let base = match prefix {\n            0 => url.clone(),\n            len => Url::parse(url.as_str().get(..len).unwrap_or_else(|| url.as_str()))?,\n        };\n        crate::reader::from_url(&base, url)"))
same('op-kind-meta', 'C32', (FI, "        if path.is_dir() {\n            Ok(Content::Directory(src))\n        } else if path.is_file() {\n            Ok(Content::File(src))\n        } else {\n            Err(anyhow::anyhow!(\"Unknown path: {:?}\", path))\n        }", "        match std::fs::metadata(path) {\n            Ok(meta) if meta.is_dir() => Ok(Content::Directory(src)),\n            Ok(meta) if meta.is_file() => Ok(Content::File(src)),\n            _ => Err(anyhow::anyhow!(\"Unknown path: {:?}\", path)),\n        }"))
same('op-opener', 'C32', (MO, "        let fp = match source {\n            Source::Local(_, path_buf) => Source::file_open(path_buf.as_path()),\n            Source::Remote(prefix, url) => Source::url_open(*prefix, url),\n        }?;", "        let fp = source.open()?;"), (MO, "impl Source {\n    pub fn from_pathbuf", "impl Source {\n    fn open(&self) -> Result<crate::reader::DecompressReader> {\n        match self {\n            Source::Local(_, path_buf) => Source::file_open(path_buf),\n            Source::Remote(prefix, url) => Source::url_open(*prefix, url),\n        }\n    }\n    pub fn from_pathbuf"))

# ---- C30
PY = 'python/src/bindings.rs'
bug('py-nocheck', 'C30', (PY, "        check_capsule(pymodel.as_ref(py), FEATURES)?;\n", ""))
bug('py-swapped', 'C30', (PY, "        check_capsule(pymodel.as_ref(py), FEATURES)?;\n", "        check_capsule(pymodel.as_ref(py), FEATURES_MATRIX)?;\n"))
bug('py-ignored', 'C30', (PY, "        check_capsule(pymodel.as_ref(py), FEATURES)?;\n", "        let _ = check_capsule(pymodel.as_ref(py), FEATURES);\n"))
bug('py-prefix', 'C30', (PY, "capsule.name().to_bytes() == name.as_bytes()", "name.as_bytes().starts_with(capsule.name().to_bytes())"))
bug('py-len', 'C30', (PY, "capsule.name().to_bytes() == name.as_bytes()", "capsule.name().to_bytes().len() == name.len()"))
bug('py-inverted', 'C30', (PY, "capsule.name().to_bytes() == name.as_bytes()", "capsule.name().to_bytes() != name.as_bytes()"))
bug('py-samename', 'C30', (PY, 'const FEATURES_MATRIX: &str = "logreduce_rust.features_matrix";', 'const FEATURES_MATRIX: &str = "logreduce_rust.features";'))
bug('py-newname', 'C30', (PY, """    fn index_mat(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
        let name = CString::new(FEATURES_MATRIX).unwrap();""", """    fn index_mat(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
        let name = CString::new(FEATURES).unwrap();"""))
bug('py-boxed', 'C30', (PY, "        let model = logreduce_index::load_mat(&buf)\n            .map_err(|e| PyValueError::new_err(format!(\"invalid matrix: {}\", e)))?;", "        let model = logreduce_index::load_mat(&buf)\n            .map(Box::new).map_err(|e| PyValueError::new_err(format!(\"invalid matrix: {}\", e)))?;"))
same('py-helper', 'C30', (PY, """        check_capsule(pymodel.as_ref(py), FEATURES)?;
        let model = unsafe {
            pymodel
                .as_ref(py)
                .reference::<Vec<logreduce_index::Features>>()
        };
""", """        let model = features(pymodel.as_ref(py))?;
"""), (PY, "/// Tokenize a line", "fn features(capsule: &PyCapsule) -> PyResult<&Vec<logreduce_index::Features>> {\n    check_capsule(capsule, FEATURES)?;\n    Ok(unsafe { capsule.reference() })\n}\n\n/// Tokenize a line"))
same('py-inline', 'C30', (PY, "        check_capsule(pymodel.as_ref(py), FEATURES)?;\n", "        let capsule = pymodel.as_ref(py);\n        match capsule.name().to_str() {\n            Ok(FEATURES) => (),\n            _ => return Err(PyTypeError::new_err(\"bad capsule\")),\n        }\n"))
same('py-early', 'C30', (PY, """    if capsule.name().to_bytes() == name.as_bytes() {
        Ok(())
    } else {
        Err(PyTypeError::new_err(format!("expected a {} capsule", name)))
    }""", """    let found = capsule.name().to_string_lossy();
    if found != name {
        return Err(PyTypeError::new_err(format!("expected a {} capsule", name)));
    }
    Ok(())"""))
same('py-generic', 'C30', (PY, """        check_capsule(pymodel.as_ref(py), FEATURES_MATRIX)?;
        let model = unsafe {
            pymodel
                .as_ref(py)
                .reference::<logreduce_index::FeaturesMatrix>()
        };
        Ok(logreduce_index::save_mat(model))""", """        let model = get(pymodel.as_ref(py), FEATURES_MATRIX, |c| unsafe { c.reference::<logreduce_index::FeaturesMatrix>() })?;
        Ok(logreduce_index::save_mat(model))"""), (PY, "/// Tokenize a line", "fn get<'a, T>(capsule: &'a PyCapsule, name: &str, f: impl Fn(&'a PyCapsule) -> T) -> PyResult<T> {\n    check_capsule(capsule, name).map(|_| f(capsule))\n}\n\n/// Tokenize a line"))
same('py-new', 'C30', (PY, """        let name = CString::new(FEATURES_MATRIX).unwrap();
        let model = logreduce_index::load_mat(&buf)
            .map_err(|e| PyValueError::new_err(format!("invalid matrix: {}", e)))?;
        PyCapsule::new(py, model, &name)""", """        let model = logreduce_index::load_mat(&buf)
            .map_err(|e| PyValueError::new_err(format!("invalid matrix: {}", e)))?;
        capsule(py, model, FEATURES_MATRIX)"""), (PY, "/// Tokenize a line", "fn capsule<'a, T: 'static + Send>(py: Python<'a>, value: T, name: &str) -> PyResult<&'a PyCapsule> {\n    PyCapsule::new(py, value, &CString::new(name).unwrap())\n}\n\n/// Tokenize a line"))

# ---- C18
TK = 'tokenizer/src/tokenizer.rs'
TPIPE = """            if do_process(w1, result) {
                result.push_str("| ");
            }
            word = w2;
            continue;
"""
bug('st-tok', 'C18', (TK, TPIPE, TPIPE.replace("word = w2;\n            continue;", "added = do_process(w2, result);")))
bug('st-pid', 'C18', (TK, "            pids += 1;\n            word = strip;\n            continue;\n", "            added = do_process(strip, result);\n            pids += 1;\n"))
bug('st-both', 'C18', (TK, TPIPE, "            if do_process(&word[1..], result) {\n                result.push_str(\"| \");\n            }\n            word = w2;\n            let _ = w1;\n            continue;\n"))
bug('st-rsplit', 'C18', (TK, "word.split_once('|')", "word.rsplit_once('|')"))
bug('st-blank', 'C18', (IT, "                Step::Drop => self.drop_until_next_line(),\n", "                Step::Drop => match self.drop_until_next_line() {\n                    Step::Scan => return self.next(),\n                    step => step,\n                },\n"))
bug('st-next', 'C18', (PR, "            .or_else(|| match self.read_anomalies() {\n                // When read_anomalies doesn't push new anomalies, that means we reach the end.\n                Ok(()) if self.anomalies.is_empty() => None,", "            .or_else(|| match self.read_anomalies() {\n                // When read_anomalies doesn't push new anomalies, that means we reach the end.\n                Ok(()) if self.stopped => None,"))
bug('st-type', 'C18', (MO, "pub enum Source {", "pub enum Tree {\n    Leaf(String),\n    Node(Vec<Tree>),\n}\n\n#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]\npub enum Source {"))
bug('st-crawl', 'C18', (H, "            pool.execute(move || match http_list(&client, url) {", "            let job = move || match http_list(&client, url) {"), (H, "                Err(e) => tx.send(Some(Err(e))).unwrap(),\n            });", "                Err(e) => tx.send(Some(Err(e))).unwrap(),\n            };\n            if pool.queued_count() > 100 { job() } else { pool.execute(job) }"))
same('st-job', 'C18', (H, "            pool.execute(move || match http_list(&client, url) {", "            let job = move || match http_list(&client, url) {"), (H, "                Err(e) => tx.send(Some(Err(e))).unwrap(),\n            });", "                Err(e) => tx.send(Some(Err(e))).unwrap(),\n            };\n            pool.execute(job);"))
same('st-helper', 'C18', (TK, TPIPE, """            process_head(w1, "| ", result);
            word = w2;
            continue;
"""), (TK, "/// The tokenizer main (recursive) function", "fn process_head(head: &str, sep: &str, result: &mut String) {\n    if do_process(head, result) {\n        result.push_str(sep);\n    }\n}\n\n/// The tokenizer main (recursive) function"))
same('st-find', 'C18', (TK, "} else if let Some((w1, w2)) = word.split_once('|') {", "} else if let Some(pos) = word.find('|') {\n            let (w1, w2) = (&word[..pos], &word[pos + 1..]);"))
same('st-loop', 'C18', (PR, """        self.anomalies
            .pop_front()
            .map(Ok)
            .or_else(|| match self.read_anomalies() {
                // When read_anomalies doesn't push new anomalies, that means we reach the end.
                Ok(()) if self.anomalies.is_empty() => None,
                Ok(()) => self.next(),
                Err(e) => Some(Err(e)),
            })
""", """        loop {
            if let Some(anomaly) = self.anomalies.pop_front() {
                return Some(Ok(anomaly));
            }
            match self.read_anomalies() {
                Ok(()) if self.anomalies.is_empty() => return None,
                Ok(()) => continue,
                Err(e) => return Some(Err(e)),
            }
        }
"""))
same('st-if', 'C18', (PR, """        self.anomalies
            .pop_front()
            .map(Ok)
            .or_else(|| match self.read_anomalies() {
                // When read_anomalies doesn't push new anomalies, that means we reach the end.
                Ok(()) if self.anomalies.is_empty() => None,
                Ok(()) => self.next(),
                Err(e) => Some(Err(e)),
            })
""", """        if let Some(anomaly) = self.anomalies.pop_front() {
            return Some(Ok(anomaly));
        }
        if let Err(e) = self.read_anomalies() {
            return Some(Err(e));
        }
        if self.anomalies.is_empty() {
            None
        } else {
            self.next()
        }
"""))

# ---- C33
TKV = """            if is_key_for_id(key) {
                result.push_str("%EQ %VALUE_ID")
            } else {
                result.push_str("%EQ ");
                word = value;
                continue;
            }
"""
TSL = """        } else if let Some((w1, w2)) = word.split_once('/') {
            if do_process(w1, result) {
                result.push_str("/ ");
            }
            word = w2;
            continue;
"""
TKE = """        } else if is_error(word) {
            // e.g. `Traceback`
            push_error(word, result)
"""
TPR = """    for word in words(line) {
        if do_process(word, &mut result) {
            result.push(' ')
        }
    }
"""
TLAST = """            let x = remove_numbers(word);
            if x.len() > 3 {
                result.push_str(&x)
            } else {
                added = false;
            }
"""
bug('tk-raw', 'C33', (TK, TLAST, TLAST.replace("result.push_str(&x)", "result.push_str(if x == word { &x } else { word })")))
bug('tk-num', 'C33', (TK, '"([0-9]+\\\\.[0-9]+)|([0-9]+)"', '"([0-9]+\\\\.[0-9]+)|([0-9][0-9]+)"'))
bug('tk-order', 'C33', (TK, TSL, ""), (TK, "        } else if contains_odd_char(word) {", TSL + "        } else if contains_odd_char(word) {"))
bug('tk-value', 'C33', (TK, "            if is_key_for_id(key) {", "            if is_key_for_id(value) {"))
bug('tk-inv', 'C33', (TK, "            if is_key_for_id(key) {", "            if !is_key_for_id(key) {"))
bug('tk-long', 'C33', (TK, "            if is_key_for_id(key) {", "            if key.len() < 32 && is_key_for_id(key) {"))
bug('tk-secret', 'C33', (TK, '"(id|key|ref|region|token|secret|password)"', '"(id|key|ref|region|token|password)"'))
bug('tk-late', 'C33', (TK, TKE, ""), (TK, "        } else if let Some(strip) = trim_pid(word) {", TKE + "        } else if let Some(strip) = trim_pid(word) {"))
bug('tk-sep', 'C33', (TK, TPR, TPR.replace("result.push(' ')", "if word.len() > 1 {\n                result.push(' ')\n            }")))
bug('tk-skip', 'C33', (TK, TPR, TPR.replace("        if do_process(word, &mut result) {", "        if word.len() < 2048 && do_process(word, &mut result) {")))
bug('tk-seen', 'C33', (TK, TPR, TPR.replace("    for word", "    let mut prev = \"\";\n    for word").replace("        if do_process(word, &mut result) {", "        if word == prev {\n            continue;\n        }\n        prev = word;\n        if do_process(word, &mut result) {")))
bug('tk-err', 'C33', (TK, "    result.push_str(word);\n    result.push(' ');\n    result.push_str(word);\n    result.push_str(\"%A \");", "    if word.len() > 9 {\n        result.push_str(\"%ERR\");\n        return;\n    }\n    result.push_str(word);\n    result.push(' ');\n    result.push_str(word);\n    result.push_str(\"%A \");"))
bug('tk-trim', 'C33', (TK, "    result.trim().to_string()\n", "    if result.is_empty() {\n        return line.to_string();\n    }\n    result.trim().to_string()\n"))
bug('tk-big', 'C33', (TK, 'result.push_str("%BIG")', 'result.push_str("%BIG");\n            result.push_str(&word[..4])'))
bug('tk-letter', 'C33', (TK, "(c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')", "(c >= 'a' && c <= 'z') || (c >= 'B' && c <= 'Z')"))
same('tk-plus', 'C33', (TK, TLAST, TLAST.replace("result.push_str(&x)", "*result += x.as_str();")))
same('tk-first', 'C33', (TK, TKE, ""), (TK, "        if let Some(token) = parse_literal(word) {", "        if is_error(word) {\n            push_error(word, result)\n        } else if let Some(token) = parse_literal(word) {"))
same('tk-each', 'C33', (TK, TPR, """    words(line).for_each(|word| {
        if do_process(word, &mut result) {
            result.push(' ')
        }
    });
"""))
same('tk-array', 'C33', (TK, "word.split_once(|c| c == '=' || c == ':')", "word.split_once(['=', ':'])"))
same('tk-help', 'C33', (TK, TKV, """            if push_key(key, result) {
                word = value;
                continue;
            }
"""), (TK, "/// The tokenizer main (recursive) function", "/// Is the value to be processed?\nfn push_key(key: &str, result: &mut String) -> bool {\n    let id = is_key_for_id(key);\n    result.push_str(if id { \"%EQ %VALUE_ID\" } else { \"%EQ \" });\n    !id\n}\n\n/// The tokenizer main (recursive) function"))
same('tk-head', 'C33 C18', (TK, TSL, """        } else if let Some((head, tail)) = word.split_once('/') {
            word = process_head(head, tail, "/ ", result);
            continue;
"""), (TK, "/// The tokenizer main (recursive) function", "fn process_head<'a>(head: &str, tail: &'a str, sep: &str, result: &mut String) -> &'a str {\n    if do_process(head, result) {\n        result.push_str(sep);\n    }\n    tail\n}\n\n/// The tokenizer main (recursive) function"))
same('tk-cap', 'C33', (TK, "    let mut result = String::with_capacity(line.len());", "    let mut result = String::new();\n    result.reserve(line.len());"))
same('tk-while', 'C33', (TK, TPR, """    let mut rest = words(line);
    while let Some(word) = rest.next() {
        let added = do_process(word, &mut result);
        if added {
            result.push_str(" ");
        }
    }
"""))
same('tk-repeat', 'C33', (TK, "    for _ in 0..pids {\n        result.push_str(\"%PID\");\n    }\n", "    result.push_str(&\"%PID\".repeat(pids));\n"))

# ---- C10
DR = """            .drain()
            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))
        {
            let mut skip_lines"""
LOS = """            let values = hm.values().collect::<Vec<&V>>();
            if values.len() == 1 {
                Some(values[0])
            } else {
                None
            }
"""
TRN = "        for (index_name, sources) in Content::group_sources(&baselines)?.drain() {"
bug('or-drain', 'C10', (MO, DR, DR.replace("            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))\n", "")))
bug('or-len', 'C10', (MO, DR, DR.replace("Ord::cmp(&x.0, &y.0)", "Ord::cmp(&x.1.len(), &y.1.len())")))
bug('or-lenk', 'C10', (MO, DR, DR.replace("Ord::cmp(&x.0, &y.0)", "Ord::cmp(&x.0.as_str().len(), &y.0.as_str().len())")))
bug('or-any', 'C10', (MO, LOS, LOS.replace("values.len() == 1", "!values.is_empty()")))
bug('or-first', 'C10', (MO, LOS, "            hm.values().next()\n"))
bug('or-debug', 'C10', (CL, "        .drain()\n        .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))\n", "        .drain()\n"))
bug('or-train', 'C10', (MO, TRN, "        let mut seen = Vec::new();\n" + TRN + "\n            seen.extend(sources.iter().cloned());"), (MO, "            created_at,\n            baselines,\n            indexes,", "            created_at,\n            baselines: { tracing::info!(\"{}\", seen.len()); baselines },\n            indexes,"))
bug('or-print', 'C10', (MO, TRN, TRN + "\n            println!(\"Loading index {}\", index_name);"))
bug('or-values', 'C10', (MO, "        Ok(Report {\n            created_at,\n            run_time: start_time.elapsed(),\n            target,\n", "        let mut index_errors = index_errors;\n        index_errors.extend(index_reports.values().map(|_: &IndexReport| vec![]));\n        Ok(Report {\n            created_at,\n            run_time: start_time.elapsed(),\n            target,\n"))
bug('or-ord', 'C10', (MO, "#[derive(Debug, Clone, Serialize, Deserialize, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct IndexName(pub String);", "#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]\npub struct IndexName(pub String);\nimpl Ord for IndexName {\n    fn cmp(&self, o: &Self) -> std::cmp::Ordering {\n        self.0.len().cmp(&o.0.len())\n    }\n}\nimpl PartialOrd for IndexName {\n    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(o))\n    }\n}"))
same('or-key', 'C10', (MO, DR, DR.replace("            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))\n", "            .sorted_by_key(|group| group.0.clone())\n")))
same('or-btree', 'C10', (MO, DR, DR.replace("            .drain()\n            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))\n", "            .into_iter()\n            .collect::<std::collections::BTreeMap<_, _>>()\n")))
same('or-vec', 'C10', (CL, """    for (index_name, sources) in Content::group_sources(&[content])?
        .drain()
        .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))
    {
""", """    let mut groups = Content::group_sources(&[content])?.into_iter().collect_vec();
    groups.sort_by(|x, y| x.0.cmp(&y.0));
    for (index_name, sources) in groups {
"""))
same('or-match', 'C10 C22', (MO, LOS, """            let mut values = hm.values();
            match (values.next(), values.next()) {
                (Some(v), None) => Some(v),
                _ => None,
            }
"""))
same('or-slice', 'C10 C22', (MO, LOS, """            match hm.values().collect::<Vec<&V>>().as_slice() {
                [v] => Some(v),
                _ => None,
            }
"""))
same('or-tlen', 'C10', (MO, DR, DR.replace("Ord::cmp(&x.0, &y.0)", "y.1.len().cmp(&x.1.len()).then_with(|| x.0.cmp(&y.0))")))
same('or-helper', 'C10', (MO, DR, DR.replace("            .drain()\n            .sorted_by(|x, y| Ord::cmp(&x.0, &y.0))\n        {", "        {").replace("        {\n", "        {\n")), (MO, "        for (index_name, sources) in Content::group_sources(&[target.clone()])?\n", "        for (index_name, sources) in by_name(Content::group_sources(&[target.clone()])?)\n"), (MO, "/// Helper function to debug\n", "fn by_name(groups: HashMap<IndexName, Vec<Source>>) -> Vec<(IndexName, Vec<Source>)> {\n    let mut groups: Vec<_> = groups.into_iter().collect();\n    groups.sort_by(|(x, _), (y, _)| x.cmp(y));\n    groups\n}\n\n/// Helper function to debug\n"))
same('or-sortin', 'C10', (MO, TRN, "        for (index_name, mut sources) in Content::group_sources(&baselines)?.drain() {\n            let mut kept = Vec::new();\n            kept.append(&mut sources);\n            let sources = kept;"))

# ---- C19
GR = """                let path = path.to_str().unwrap_or("");
                path.get(*base_len..).unwrap_or(path)
"""
PD = """        let new_len = url.path().len() - 10;
        new_url.set_path(&url.path()[..new_len]);
"""
bug('pn-relative', 'C19', (MO, GR, "                let path = path.to_str().unwrap_or(\"\");\n                &path[*base_len..]\n"))
bug('pn-relunwrap', 'C19', (MO, GR, "                let path = path.to_str().unwrap_or(\"\");\n                path.get(*base_len..).unwrap()\n"))
bug('pn-tostr', 'C19', (MO, GR, "                let path = path.to_str().unwrap();\n                path.get(*base_len..).unwrap_or(path)\n"))
bug('pn-lenonly', 'C19', (MO, GR, "                let path = path.to_str().unwrap_or(\"\");\n                if *base_len <= path.len() { &path[*base_len..] } else { path }\n"))
bug('pn-url', 'C19', (MO, 'Content::from_url(Url::parse(&url_str).context("Failed to parse url")?)', 'Content::from_url(Url::parse(&url_str).expect("Failed to parse url"))'))
bug('pn-under', 'C19', (RP, "anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len())", "anomaly.anomaly.pos - 1 - anomaly.before.len()"))
bug('pn-train', 'C19', (PR, """            let raw_str = std::str::from_utf8(&line.0[..])
                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
            self.line_count += 1;
            self.byte_count += line.0.len();
            let tokens""", """            let raw_str = std::str::from_utf8(&line.0[..]).unwrap();
            self.line_count += 1;
            self.byte_count += line.0.len();
            let tokens"""))
bug('pn-clone', 'C19', (PR, """            let raw_str = std::str::from_utf8(&line.0[..])
                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
            self.line_count += 1;
            self.byte_count += line.0.len();
            let tokens = self.index.tokenize(raw_str);""", """            let raw_str = logreduce_iterator::clone_bytes_to_string(&line.0).unwrap();
            self.line_count += 1;
            self.byte_count += line.0.len();
            let tokens = self.index.tokenize(&raw_str);"""))
bug('pn-lossy', 'C19', (PR, """            let raw_str = std::str::from_utf8(&line.0[..])
                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
            self.line_count += 1;
            self.byte_count += line.0.len();
            self.coord += 1;
""", """            let raw_str = String::from_utf8_lossy(&line.0[..]).to_string();
            let raw_str = raw_str.as_str();
            self.line_count += 1;
            self.byte_count += line.0.len();
            self.coord += 1;
"""))
bug('pn-walk', 'C19', (FI, """            .map(move |res| match res {
                Err(e) => Err(e.into()),
                Ok(res) => Ok(Source::Local(base_len, res.into_path())),
            })""", """            .map(move |res| Ok(Source::Local(base_len, res.unwrap().into_path())))"""))
bug('pn-join', 'C19', (H, """            base_url
                .join(link)
                .map_err(|e| mk_error(&format!("Invalid link {}", e)))
""", """            Ok(base_url.join(link).unwrap())
"""))
bug('pn-host', 'C19', (UR, "        if !url.has_authority() {", "        tracing::debug!(host = url.host_str().unwrap(), \"Opening\");\n        if !url.has_authority() {"))
bug('pn-group', 'C19', (H, """r#"<a href="([\\\\/a-zA-Z0-9][^"]+)">"#""", """r#"<a href="([\\\\/a-zA-Z0-9][^"]+)?">"#"""))
bug('pn-dir11', 'C19', (H, 'else if url.path().ends_with("/index.html")', 'else if url.path().ends_with("html")'))
bug('pn-preview', 'C19', (PR, "            // Special check to break", "            tracing::debug!(\"{}\", &raw_str[..raw_str.len().min(80)]);\n            // Special check to break"))
bug('pn-preview2', 'C19', (RP, "pos + 1 + idx, escape(line)))?", "pos + 1 + idx, escape(if line.len() > 4096 { &line[..4096] } else { line })))?"))
bug('pn-truncate', 'C19', (RP, '''                escape(&anomaly.anomaly.line)
''', '''                { let mut l = anomaly.anomaly.line.clone(); l.truncate(4096); escape(&l) }
'''))
bug('pn-parts', 'C19', (MO, "    pub fn is_json(&'_ self) -> bool {\n", "    pub fn is_json(&'_ self) -> bool {\n        let parts = self.get_relative().split('/').collect::<Vec<&str>>();\n        if parts[1] == \"json\" { return true; }\n"))
bug('pn-nth', 'C19', (MO, "        self.get_relative().ends_with(\".json\")", "        self.get_relative().rsplit('.').nth(1).unwrap() == \"json\" || self.get_relative().ends_with(\".json\")"))
bug('pn-first', 'C19', (TK, "fn is_uuid(word: &str) -> bool {\n", "fn is_uuid(word: &str) -> bool {\n    if word.chars().next().unwrap() == '=' { return false; }\n"))
bug('pn-slice1', 'C19', (TK, "fn is_uuid(word: &str) -> bool {\n", "fn is_uuid(word: &str) -> bool {\n    let word = &word[1..];\n"))
bug('pn-lenbound', 'C19', (PR, "if buffer_pos < CTX_DISTANCE {", "if buffer_pos == 0 {"))
bug('pn-min', 'C19', (PR, "let want = need.min(available);", "let want = need;"))
same('pn-bound', 'C19', (MO, GR, "                let path = path.to_str().unwrap_or(\"\");\n                if path.is_char_boundary(*base_len) { &path[*base_len..] } else { path }\n"))
same('pn-helper', 'C19 C35', (MO, GR, "                let path = path.to_str().unwrap_or(\"\");\n                after(path, *base_len)\n"), (MO, "impl Source {\n    pub fn from_pathbuf", "fn after(text: &str, base: usize) -> &str {\n    match text.get(base..) {\n        Some(t) => t,\n        None => text,\n    }\n}\n\nimpl Source {\n    pub fn from_pathbuf"))
same('pn-suffix', 'C19 C28', (H, """    } else if url.path().ends_with("/index.html") {
        let mut new_url = url.clone();
        let new_len = url.path().len() - 10;
        new_url.set_path(&url.path()[..new_len]);
        Some(new_url)
    } else {
        None
    }""", """    } else if let Some(dir) = url.path().strip_suffix("index.html").filter(|d| d.ends_with('/')) {
        let mut new_url = url.clone();
        new_url.set_path(dir);
        Some(new_url)
    } else {
        None
    }"""))
same('pn-cutlen', 'C19 C28', (H, PD, """        let path = url.path();
        let keep = path.len() - "index.html".len();
        new_url.set_path(&path[..keep]);
"""))
same('pn-cuthelp', 'C19 C28', (H, PD, """        new_url.set_path(without_tail(url.path(), 10));
"""), (H, "fn path_dir(", "fn without_tail(path: &str, n: usize) -> &str {\n    let end = path.len() - n;\n    &path[..end]\n}\n\nfn path_dir("))
same('pn-checked', 'C19 C37', (RP, "anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len())", "anomaly.anomaly.pos.checked_sub(1 + anomaly.before.len()).unwrap_or(0)"))
same('pn-iflen', 'C19 C37', (RP, "anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len())", "{ let n = anomaly.before.len(); if anomaly.anomaly.pos > n { anomaly.anomaly.pos - 1 - n } else { 0 } }"))
same('pn-satctx', 'C19 C14', (PR, """    let min_pos = if buffer_pos < CTX_DISTANCE {
        0
    } else {
        buffer_pos - CTX_DISTANCE
    };""", """    let min_pos = if buffer_pos >= CTX_DISTANCE { buffer_pos - CTX_DISTANCE } else { 0 };"""))
same('pn-kept', 'C19 C13', (PR, """            let raw_str = std::str::from_utf8(&line.0[..])
                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
            self.line_count += 1;
            self.byte_count += line.0.len();
            self.coord += 1;
""", """            let raw_str = match std::str::from_utf8(&line.0) {
                Ok(s) => s,
                Err(e) => return Err(std::io::Error::new(std::io::ErrorKind::Other, e).into()),
            };
            self.line_count += 1;
            self.byte_count += line.0.len();
            self.coord += 1;
"""))
same('pn-text', 'C19 C13', (PR, """            let raw_str = std::str::from_utf8(&line.0[..])
                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
            self.line_count += 1;
            self.byte_count += line.0.len();
            self.coord += 1;
""", """            let raw_str = line_text(&line)?;
            self.line_count += 1;
            self.byte_count += line.0.len();
            self.coord += 1;
"""), (PR, "/// Build the before context from", "fn line_text(line: &LogLine) -> Result<&str> {\n    std::str::from_utf8(&line.0[..])\n        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e).into())\n}\n\n/// Build the before context from"))
same('pn-parts2', 'C19', (MO, "    pub fn is_json(&'_ self) -> bool {\n", "    pub fn is_json(&'_ self) -> bool {\n        let parts = self.get_relative().split('/').collect::<Vec<&str>>();\n        if parts.len() > 1 && parts[1] == \"json\" { return true; }\n"))
same('pn-firstx', 'C19', (TK, "fn is_uuid(word: &str) -> bool {\n", "fn is_uuid(word: &str) -> bool {\n    if !word.is_empty() && word.split('=').next().unwrap() == \"x=\" { return false; }\n"))
same('pn-findcut', 'C19', (MO, "    pub fn is_json(&'_ self) -> bool {\n", "    pub fn is_json(&'_ self) -> bool {\n        let name = self.get_relative();\n        if let Some(pos) = name.rfind('.') { if &name[pos + 1..] == \"json\" { return true; } }\n"))
same('pn-groupx', 'C19', (H, """        .map(|c| c.get(1).unwrap().as_str())
""", """        .filter_map(|c| c.get(1))
        .map(|m| m.as_str())
"""))

# ---- C31: what is left out
VL = "EXTS.iter().all(|ext| !s.ends_with(ext)) && !s.contains(\"/etc/\")"
bug('vl-contains', 'C31', (MO, VL, "EXTS.iter().all(|ext| !s.contains(ext.as_str())) && !s.contains(\"/etc/\")"))
bug('vl-starts', 'C31', (MO, VL, VL + " && !s.starts_with('.')"))
bug('vl-hidden', 'C31', (MO, VL, VL + " && !s.contains(\"/.\")"))
bug('vl-etc', 'C31', (MO, VL, "EXTS.iter().all(|ext| !s.ends_with(ext)) && !s.contains(\"etc\")"))
bug('vl-find', 'C31', (MO, VL, "EXTS.iter().all(|ext| s.find(ext.as_str()).is_none()) && !s.contains(\"/etc/\")"))
bug('vl-empty', 'C31', (MO, VL, "s.len() > 8 && " + VL))
same('vl-any', 'C31 C19', (MO, VL, "!(s.contains(\"/etc/\") || EXTS.iter().any(|ext| s.ends_with(ext.as_str())))"))
same('vl-loop', 'C31 C19', (MO, VL, "for ext in EXTS.iter() {\n            if s.ends_with(ext) {\n                return false;\n            }\n        }\n        !s.contains(\"/etc/\")"))
same('vl-helper', 'C31 C19', (MO, VL, "fn keeps(s: &str, exts: &[String]) -> bool {\n            let dropped = exts.iter().find(|ext| s.ends_with(ext.as_str()));\n            dropped.is_none() && !s.contains(\"/etc/\")\n        }\n        keeps(s, &EXTS)"))
same('vl-filter', 'C31 C19', (MO, VL, "let dropped = EXTS.iter().filter(|ext| s.ends_with(ext.as_str())).count();\n        if dropped > 0 {\n            return false;\n        }\n        !s.contains(\"/etc/\")"))

# ---- C15
CA = "                    anomaly.after.push(raw_str);\n                    if anomaly.after.len() >= CTX_DISTANCE {"
CL = "                // And we update"
bug('cx-lastpos', 'C15', (PR, "                    last_context_pos = buffer_pos;\n                }\n                if distance_found", "                }\n                if distance_found"))
bug('cx-found', 'C15', (PR, "                } else if let Some(anomaly) = &mut self.current_anomaly {", "                } else if let (Some(anomaly), false) = (&mut self.current_anomaly, distance_found_in_buffer) {"))
bug('cx-posafter', 'C15', (PR, "                    last_context_pos = buffer_pos;\n                }\n                if distance_found", "                    last_context_pos = buffer_pos - 1;\n                }\n                if distance_found"))
bug('cx-beforepos', 'C15', (PR, "                    buffer_pos - 1,\n", "                    buffer_pos,\n"))
bug('cx-nolast', 'C15', (PR, "                    last_context_pos,\n                    &self.buffer,", "                    0,\n                    &self.buffer,"))
bug('cx-lastself', 'C15', (PR, "                last_context_pos = buffer_pos;\n\n", "                last_context_pos = buffer_pos - 1;\n\n"))
bug('cx-reset0', 'C15', (PR, "        self.reset(last_context_pos)", "        self.reset(0)"))
bug('cx-resetpos', 'C15', (PR, "        self.reset(last_context_pos)", "        self.reset(buffer_pos)"))
bug('cx-leftmore', 'C15', (PR, "self.buffer.len() - CTX_DISTANCE\n", "self.buffer.len() - CTX_DISTANCE - 1\n"))
bug('cx-stale', 'C15', (PR, "if before_context_pos == 0 && before.len()", "if before.len()"))
bug('cx-after4', 'C15', (PR, """                    if anomaly.after.len() >= CTX_DISTANCE {
                        // The current anomaly is completed. TODO: try using std::mem::replace
                        self.anomalies.push_back(anomaly.clone());
                        self.current_anomaly = None;
                    }""", """                    if anomaly.after.len() > CTX_DISTANCE {
                        // The current anomaly is completed. TODO: try using std::mem::replace
                        self.anomalies.push_back(anomaly.clone());
                        self.current_anomaly = None;
                    }"""))
bug('cx-nobreak', 'C15', (PR, """                        self.current_anomaly = None;
                        break;
                    }
                }
            }
        }
        self.reset""", """                        self.current_anomaly = None;
                    }
                    break;
                }
            }
        }
        self.reset"""))
bug('cx-min', 'C15', (PR, "        let max_left_overs_pos = left_overs_pos.max(min_left_overs_pos);", "        let max_left_overs_pos = left_overs_pos.min(min_left_overs_pos);"))
bug('cx-notail', 'C15', (PR, "            if last_context_pos < self.buffer.len() {\n", "            if last_context_pos == 0 {\n"))
bug('cx-unfix1', 'C15', (PR, " || self.current_anomaly.is_some() {", " {"))
bug('cx-unfix2', 'C15', (PR, "                    last_context_pos += 1;\n", ""))
bug('cx-pushchunk', 'C15', (PR, "        self.reset(last_context_pos)\n", "        if let Some(anomaly) = self.current_anomaly.take() {\n            self.anomalies.push_back(anomaly);\n        }\n        self.reset(last_context_pos)\n"))
bug('cx-emptyline', 'C15', (PR, CA, CA.replace("anomaly.after.push(raw_str);", "if !raw_str.is_empty() {\n                        anomaly.after.push(raw_str);\n                    }")) if False else (PR, "                    let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();\n                    anomaly.after.push(raw_str);\n                    last_context_pos", "                    let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();\n                    if !raw_str.is_empty() {\n                        anomaly.after.push(raw_str);\n                    }\n                    last_context_pos"))
same('cx-satsub', 'C15 C14 C13', (PR, """    let min_pos = if buffer_pos < CTX_DISTANCE {
        0
    } else {
        buffer_pos - CTX_DISTANCE
    };""", """    let min_pos = buffer_pos.saturating_sub(CTX_DISTANCE);"""), (PR, """        let min_left_overs_pos = if self.buffer.len() < CTX_DISTANCE {
            0
        } else {
            self.buffer.len() - CTX_DISTANCE
        };""", """        let min_left_overs_pos = self.buffer.len().saturating_sub(CTX_DISTANCE);"""))
same('cx-take', 'C15 C14 C13', (PR, """                        self.anomalies.push_back(anomaly.clone());
                        self.current_anomaly = None;
                        break;""", """                        let done = self.current_anomaly.take();
                        self.anomalies.extend(done);
                        break;"""))
same('cx-flush', 'C15 C14 C13', (PR, """        if let Some(anomaly) = &self.current_anomaly {
            // No more after context available
            self.anomalies.push_back(anomaly.clone());
            self.current_anomaly = None;
        }
        Ok(())""", """        self.flush();
        Ok(())"""), (PR, "    fn reset(&mut self", "    fn flush(&mut self) {\n        if let Some(anomaly) = self.current_anomaly.take() {\n            self.anomalies.push_back(anomaly);\n        }\n    }\n\n    fn reset(&mut self"))
same('cx-forpush', 'C15 C14 C13', (PR, """        self.left_overs = self.buffer[max_left_overs_pos..]
            .iter()
            // TODO: use direct bytes -> str conversion.
            .map(|((bytes, _), _)| logreduce_iterator::clone_bytes_to_string(bytes).unwrap())
            .collect();""", """        self.left_overs.clear();
        for ((bytes, _), _) in &self.buffer[max_left_overs_pos..] {
            self.left_overs.push(logreduce_iterator::clone_bytes_to_string(bytes).unwrap());
        }"""))
same('cx-addafter', 'C15 C14 C13', (PR, """                    anomaly.after.push(raw_str);
                    if anomaly.after.len() >= CTX_DISTANCE {
                        // The current anomaly is completed. TODO: try using std::mem::replace
                        self.anomalies.push_back(anomaly.clone());
                        self.current_anomaly = None;
                    }""", """                    if add_after(anomaly, raw_str) {
                        // The current anomaly is completed. TODO: try using std::mem::replace
                        self.anomalies.push_back(anomaly.clone());
                        self.current_anomaly = None;
                    }"""), (PR, "/// Build the before context", "fn add_after(anomaly: &mut AnomalyContext, line: String) -> bool {\n    anomaly.after.push(line);\n    anomaly.after.len() >= CTX_DISTANCE\n}\n\n/// Build the before context"))
same('cx-insert', 'C15 C14', (PR, """        let mut before_extra: Vec<String> = left_overs[(available - want)..]
            .iter()
            .map(|s| s.to_string())
            .collect();
        before.append(&mut before_extra);
        // Rotate the buffer to keep the left overs before
        before.rotate_right(want);""", """        let mut extra = left_overs[(available - want)..].to_vec();
        extra.append(&mut before);
        before = extra;"""))
same('cx-skip', 'C15 C14 C13', (PR, """            let buffer = &self.buffer[buffer_pos..];
            for ((bytes, line_number), line_coord) in buffer {""", """            for ((bytes, line_number), line_coord) in self.buffer.iter().skip(buffer_pos) {"""))
same('cx-index', 'C15 C14 C13', (PR, """            let buffer = &self.buffer[buffer_pos..];
            for ((bytes, line_number), line_coord) in buffer {
                buffer_pos += 1;
""", """            while buffer_pos < self.buffer.len() {
                let ((bytes, line_number), line_coord) = &self.buffer[buffer_pos];
                buffer_pos += 1;
"""))
same('cx-ifmax', 'C15 C14 C13', (PR, "        let max_left_overs_pos = left_overs_pos.max(min_left_overs_pos);", "        let max_left_overs_pos = if left_overs_pos > min_left_overs_pos { left_overs_pos } else { min_left_overs_pos };"))
same('cx-match', 'C15 C14 C13', (PR, """            if last_context_pos < self.buffer.len() {
                for ((bytes, _), _) in &self.buffer[last_context_pos..] {
                    let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                    anomaly.after.push(raw_str);
                    last_context_pos += 1;
                    if anomaly.after.len() >= CTX_DISTANCE {
                        // The current anomaly is completed. TODO: try using std::mem::replace
                        self.anomalies.push_back(anomaly.clone());
                        self.current_anomaly = None;
                        break;
                    }
                }
            }""", """            for ((bytes, _), _) in &self.buffer[last_context_pos..] {
                last_context_pos += 1;
                let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                anomaly.after.push(raw_str);
                if anomaly.after.len() >= CTX_DISTANCE {
                    self.anomalies.push_back(anomaly.clone());
                    self.current_anomaly = None;
                    break;
                }
            }"""))

# C40: the page of a zuul build
ZU = 'model/src/zuul.rs'
GZ = """    url.path_segments().and_then(|mut iter| {
        // Check if the last segment is a uuid
        iter.next_back().and_then(|uid| match is_uid(uid) {
            false => None,
            // Check if the next segment is "/build/"
            true => iter.next_back().and_then(|build| match build == "build" {
                false => None,
                true => iter
                    .next_back()
                    .and_then(|tenant| match iter.next_back() {
                        // This is a multi tenant url
                        Some("t") => Some(api_from_webui(url, tenant, uid).map(|api| (api, uid))),
                        _ => None,
                    })
                    .or_else(|| {
                        // Otherwise assume this is a whitelabel url
                        Some(api_from_whitelabel_webui(url, uid).map(|api| (api, uid)))
                    }),
            }),
        })
    })
"""
bug('zp-len', 'C40', (ZU, 's.len() == 32', 's.len() >= 32'))
bug('zp-nolen', 'C40', (ZU, 's.len() == 32\n        && !s', '!s.is_empty() && !s'))
bug('zp-join', 'C40', (ZU, 'api.join("build/")?.join(uid)?', 'api.join("build")?.join(uid)?'))
bug('zp-builds', 'C40', (ZU, 'api.join("build/")?.join(uid)?', 'api.join("builds/")?.join(uid)?'))
bug('zp-abs', 'C40', (ZU, 'api.join("build/")?.join(uid)?', 'api.join("/build/")?.join(uid)?'))
bug('zp-short', 'C40', (ZU, 'api.join("build/")?.join(uid)?', 'api.join("build/")?.join(&uid[..7])?'))
bug('zp-lower', 'C40', (ZU, 'api.join("build/")?.join(uid)?', 'api.join("build/")?.join(&uid.to_lowercase())?'))
bug('zp-white', 'C40', (ZU, 'Some("t") => Some', 'Some("tenant") => Some'))
bug('zp-tenants', 'C40', (ZU, '"{}/api/tenant/{}/", base, tenant', '"{}/api/tenant/{}/", base, tenant.to_lowercase()'))
bug('zp-notb', 'C40', (ZU, 'match build == "build" {', 'match build == "build" || build == "builds" {'), (ZU, 'and_then(|build| match', 'and_then(|build| match'))
bug('zp-origin', 'C40', (ZU, 'url::Position::BeforePath', 'url::Position::AfterHost'))
bug('zp-nobase', 'C40', (ZU, 'format!("{}{}", &url[..url::Position::BeforePath], base)', 'format!("{}{}", &url[..url::Position::BeforePath], base.trim_end_matches(\'/\'))'))
bug('zp-refuse', 'C40', (ZU, """                        _ => None,
                    })
                    .or_else(|| {
                        // Otherwise assume this is a whitelabel url
                        Some(api_from_whitelabel_webui(url, uid).map(|api| (api, uid)))
                    }),""", """                        Some("zuul") | None => Some(api_from_whitelabel_webui(url, uid).map(|api| (api, uid))),
                        _ => None,
                    }),"""))
bug('zp-swap', 'C40', (ZU, 'match iter.next_back() {\n                        // This', 'match iter.next() {\n                        // This'))
same('zp-early', 'C40 C19 C32 C21 C22', (ZU, GZ, """    let mut segments = url.path_segments()?;
    let uid = segments.next_back()?;
    if !is_uid(uid) {
        return None;
    }
    if segments.next_back()? != "build" {
        return None;
    }
    let tenant = segments.next_back();
    let api = match (tenant, segments.next_back()) {
        (Some(tenant), Some("t")) => api_from_webui(url, tenant, uid),
        _ => api_from_whitelabel_webui(url, uid),
    };
    Some(api.map(|api| (api, uid)))
"""))
same('zp-rev', 'C40 C19 C32 C21 C22', (ZU, GZ, """    let mut segments = url.path_segments()?.rev();
    let uid = segments.next().filter(|uid| is_uid(uid))?;
    segments.next().filter(|build| *build == "build")?;
    if let Some(tenant) = segments.next() {
        if segments.next() == Some("t") {
            return Some(api_from_webui(url, tenant, uid).map(|api| (api, uid)));
        }
    }
    Some(api_from_whitelabel_webui(url, uid).map(|api| (api, uid)))
"""))
same('zp-slice', 'C40 C19 C32 C21 C22', (ZU, GZ, """    let segments: Vec<&str> = url.path_segments()?.collect();
    match segments.as_slice() {
        [.., "t", tenant, "build", uid] if is_uid(uid) => {
            Some(api_from_webui(url, tenant, uid).map(|api| (api, *uid)))
        }
        [.., "build", uid] if is_uid(uid) => {
            Some(api_from_whitelabel_webui(url, uid).map(|api| (api, *uid)))
        }
        _ => None,
    }
"""))
same('zp-fmt', 'C40 C19 C32 C21 C22', (ZU, 'api.join("build/")?.join(uid)?', 'api.join(&format!("build/{}", uid))?'))
same('zp-all', 'C40 C19 C32 C21 C22', (ZU, """        && !s.contains(|c: char| {
            !c.is_ascii_lowercase() && !c.is_ascii_uppercase() && !c.is_ascii_digit()
        })""", "        && s.chars().all(|c| c.is_ascii_alphanumeric())"))
same('zp-if', 'C40 C19 C32 C21 C22', (ZU, """match build == "build" {
                false => None,
                true => iter""", """match build {
                "build" => iter"""), (ZU, """                        Some(api_from_whitelabel_webui(url, uid).map(|api| (api, uid)))
                    }),
            }),""", """                        Some(api_from_whitelabel_webui(url, uid).map(|api| (api, uid)))
                    }),
                _ => None,
            }),"""))
same('zp-let', 'C40 C19 C32 C21 C22', (ZU, """    service_url(url, &format!("/build/{}", uid)).and_then(|base| {
        Url::parse(&format!("{}/api/", base)).context("Can't recreate zuul api url")
    })""", """    let end = format!("/build/{}", uid);
    let base = service_url(url, &end)? + "/api/";
    Url::parse(&base).context("Can't recreate zuul api url")"""))

# C41: the live output; C37: line numbers of the page
CMAIN = 'cli/src/main.rs'
PC = """        xs.iter()
            .enumerate()
            .for_each(|(idx, line)| println!("   {} | {}", pos + 1 + idx, line))
"""
bug('ov-before0', 'C41', (CMAIN, "anomaly.anomaly.pos - context_size\n", "anomaly.anomaly.pos - anomaly.before.len()\n"))
bug('ov-noidx', 'C41', (CMAIN, PC, PC.replace("pos + 1 + idx", "pos + 1").replace("(idx, line)", "(_, line)")))
bug('ov-take', 'C41', (CMAIN, PC, PC.replace(".enumerate()", ".enumerate()\n            .take(3)")))
bug('ov-blank', 'C41', (CMAIN, PC, PC.replace(".enumerate()", ".enumerate()\n            .filter(|(_, line)| !line.is_empty())")))
bug('ov-rev', 'C41', (CMAIN, PC, PC.replace(".enumerate()", ".rev()\n            .enumerate()")))
bug('ov-swap', 'C41', (CMAIN, "print_context(starting_pos, &anomaly.before);", "print_context(starting_pos, &anomaly.after);"))
bug('ov-noafter', 'C41', (CMAIN, "                    print_context(anomaly.anomaly.pos, &anomaly.after);\n", "                    if !anomaly.before.is_empty() {\n                        print_context(anomaly.anomaly.pos, &anomaly.after);\n                    }\n"))
bug('ov-afterpos', 'C41', (CMAIN, "print_context(anomaly.anomaly.pos, &anomaly.after);", "print_context(anomaly.anomaly.pos + 1, &anomaly.after);"))
bug('ov-skipfirst', 'C41', (CMAIN, "                                Ok(anomaly) => print_anomaly(anomaly),", "                                Ok(anomaly) if anomaly.anomaly.distance < 0.3 => {}\n                                Ok(anomaly) => print_anomaly(anomaly),"))
bug('ov-pos', 'C41', (CMAIN, "                        anomaly.anomaly.pos,\n                        anomaly.anomaly.line", "                        starting_pos,\n                        anomaly.anomaly.line"))
bug('ov-html-idx', 'C37', ('report/src/report.rs', "pos + 1 + idx, escape(line)", "pos + idx, escape(line)"))
bug('ov-html-start', 'C37', ('report/src/report.rs', "saturating_sub(1 + anomaly.before.len())", "saturating_sub(anomaly.before.len())"))
bug('ov-html-after', 'C37', ('report/src/report.rs', "render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;", "render_context(loglines, starting_pos + anomaly.before.len(), &anomaly.after)?;"))
bug('ov-html-const', 'C37', ('report/src/report.rs', "pos + 1 + idx, escape(line)", "pos + 1 + idx * 0, escape(line)"))
same('ov-for', 'C41 C24 C10 C08', (CMAIN, PC, """        for (idx, line) in xs.iter().enumerate() {
            println!("   {} | {}", pos + 1 + idx, line);
        }
"""))
same('ov-count', 'C41 C24 C10 C08', (CMAIN, PC, """        let mut nr = pos;
        for line in xs {
            nr += 1;
            println!("   {} | {}", nr, line);
        }
"""))
same('ov-zip', 'C41 C24 C10 C08', (CMAIN, PC, """        for (nr, line) in (pos + 1..).zip(xs) {
            println!("   {} | {}", nr, line);
        }
"""))
same('ov-index', 'C41 C24 C10 C08', (CMAIN, PC, """        for idx in 0..xs.len() {
            println!("   {} | {}", pos + 1 + idx, xs[idx]);
        }
"""))
same('ov-sat', 'C41 C24 C10 C08', (CMAIN, """                    let starting_pos = if anomaly.anomaly.pos > context_size {
                        anomaly.anomaly.pos - context_size
                    } else {
                        0
                    };
""", "                    let starting_pos = anomaly.anomaly.pos.saturating_sub(context_size);\n"))
same('ov-fn', 'C41 C24 C10 C08', (CMAIN, """    let print_context = |pos: usize, xs: &[String]| {
""" + PC + "    };\n", ""), (CMAIN, "fn debug_groups(input", """fn print_context(pos: usize, xs: &[String]) {
    let mut idx = 0;
    while idx < xs.len() {
        println!("   {} | {}", pos + 1 + idx, xs[idx]);
        idx += 1;
    }
}

fn debug_groups(input"""))
same('ov-destr', 'C41 C24 C10 C08', (CMAIN, "let context_size = 1 + anomaly.before.len();", "let logreduce_model::AnomalyContext { before, after, .. } = &anomaly;\n                    let context_size = before.len() + 1;"),
     (CMAIN, "print_context(starting_pos, &anomaly.before);", "print_context(starting_pos, before);"), (CMAIN, "print_context(anomaly.anomaly.pos, &anomaly.after);", "print_context(anomaly.anomaly.pos, after);"))
RCX = """    for (idx, line) in xs.iter().enumerate() {
        loglines
            .pre()
            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
    }
    Ok(())"""
same('ov-html-try', 'C37 C25 C19', ('report/src/report.rs', RCX, """    xs.iter().enumerate().try_for_each(|(idx, line)| {
        let text = format!("   {:4} | {}", pos + 1 + idx, escape(line));
        loglines.pre().write_str(&text)?;
        Ok(())
    })"""))
same('ov-html-index', 'C37 C25 C19', ('report/src/report.rs', RCX, """    for idx in 0..xs.len() {
        loglines
            .pre()
            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(&xs[idx])))?;
    }
    Ok(())"""))
same('ov-html-nr', 'C37 C25 C19', ('report/src/report.rs', RCX, """    let mut nr = pos;
    for line in xs {
        nr += 1;
        loglines
            .pre()
            .write_str(&format!("   {:4} | {}", nr, escape(line)))?;
    }
    Ok(())"""))

# ---- refactorings across the files, for all the checks
ZU, UR, RD, MO, RP = 'model/src/zuul.rs', 'model/src/urls.rs', 'model/src/reader.rs', 'model/src/model.rs', 'report/src/report.rs'
same('xr-head', 'C03', (C, """        match self.get(&filename::head_success(base, path)) {
            Some(_) => Some(true),
            None => self.get(&filename::head_failure(base, path)).map(|_| false),
        }""", """        let success = self.get(&filename::head_success(base, path)).map(|_| true);
        success.or_else(|| self.get(&filename::head_failure(base, path)).map(|_| false))"""))
same('xr-headset', 'C03', (C, """        let fp = if result {
            filename::head_success(base, path)
        } else {
            filename::head_failure(base, path)
        };
        self.create(&fp).map(|_| result)""", """        let name = match result {
            true => filename::head_success,
            false => filename::head_failure,
        };
        let _marker = self.create(&name(base, path))?;
        Ok(result)"""))
same('xr-remoteget', 'C03', (C, """        self.get(&filename::http(base, path)).map(|buf| {
            let fp = File::open(buf)?;
            Ok(GzDecoder::new(fp))
        })""", """        let entry = self.get(&filename::http(base, path))?;
        Some(
            File::open(entry)
                .map(GzDecoder::new)
                .map_err(anyhow::Error::from),
        )"""))
same('xr-create', 'C03', (C, """        if path.exists() {
            Err(anyhow::anyhow!("Cache file already exist: {:?}", buf))
        } else {
            let parent = path.parent().context("Failed to get cache parent")?;
            std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
            File::create(buf).context("Failed to create local cache file")
        }""", """        if path.exists() {
            return Err(anyhow::anyhow!("Cache file already exist: {:?}", buf));
        }
        match path.parent() {
            Some(parent) => {
                std::fs::create_dir_all(parent).context("Failed to create parent dir")?
            }
            None => return Err(anyhow::anyhow!("Failed to get cache parent")),
        }
        File::create(path).context("Failed to create local cache file")"""))
same('xr-httpget', 'C03', (C, """        self.get(&filename::httpdir(url)).map(|buf| {
            let fp = File::open(buf)?;
            bincode::deserialize_from(fp).context("Failed to decode cached result")
        })""", """        match self.get(&filename::httpdir(url)) {
            None => None,
            Some(buf) => Some(Self::read_listing(&buf)),
        }"""), (C, "    /// Add a httpdir to the cache.", """    fn read_listing(path: &std::path::Path) -> Result<Vec<Url>> {
        let fp = File::open(path)?;
        let urls = bincode::deserialize_from(fp).context("Failed to decode cached result")?;
        Ok(urls)
    }

    /// Add a httpdir to the cache."""))
same('xr-fromurl', 'C01', (RD, """    if *USE_CACHE {
        match CACHE.remote_get(base, url) {
            Some(cache) => {
                tracing::debug!("Cache hit for {}", url);
                cache.map(Gz)
            }
            None => {
                tracing::debug!("Cache miss for {}", url);
                let resp = remote::get_url(url)?;
                let cache = CACHE.remote_add(base, url, resp)?;
                Ok(Cached(cache))
            }
        }
    } else {
        Ok(Remote(remote::get_url(url)?))
    }""", """    if !*USE_CACHE {
        return remote::get_url(url).map(Remote);
    }
    if let Some(cache) = CACHE.remote_get(base, url) {
        tracing::debug!("Cache hit for {}", url);
        return Ok(Gz(cache?));
    }
    tracing::debug!("Cache miss for {}", url);
    remote::get_url(url)
        .and_then(|resp| CACHE.remote_add(base, url, resp))
        .map(Cached)"""))
same('xr-geturl', 'C01', (RD, """        CLIENT
            .get(url.clone())
            .send()
            .and_then(|resp| resp.error_for_status())
            .context("Can't get url")""", """        let resp = CLIENT.get(url.as_str()).send().context("Can't get url")?;
        let resp = resp.error_for_status().context("Can't get url")?;
        Ok(resp)"""))
same('xr-headurl', 'C01', (RD, """    if *USE_CACHE {
        match CACHE.head(base, url) {
            Some(result) => {
                tracing::debug!("Cache hit for {}", url);
                Ok(result)
            }
            None => {
                tracing::debug!("Cache miss for {}", url);
                CACHE.head_set(base, url, remote::head(url)?)
            }
        }
    } else {
        remote::head(url)
    }""", """    let known = if *USE_CACHE {
        CACHE.head(base, url)
    } else {
        None
    };
    if let Some(result) = known {
        tracing::debug!("Cache hit for {}", url);
        return Ok(result);
    }
    let result = remote::head(url)?;
    if *USE_CACHE {
        tracing::debug!("Cache miss for {}", url);
        CACHE.head_set(base, url, result)?;
    }
    Ok(result)"""))
same('xr-head2', 'C01', (RD, """        let resp = CLIENT.head(url.clone()).send().context("Can't head url")?;
        Ok(resp.status().is_success())""", """        CLIENT
            .head(url.clone())
            .send()
            .map(|resp| resp.status().is_success())
            .context("Can't head url")"""))
same('xr-urlopen', 'C03', (UR, """        if prefix == 0 {
            crate::reader::from_url(url, url)
        } else {
            let base = url.as_str().get(..prefix).unwrap_or(url.as_str());
            crate::reader::from_url(&Url::parse(base)?, url)
        }""", """        let base = match prefix {
            0 => url.clone(),
            n => Url::parse(url.as_str().get(..n).unwrap_or_else(|| url.as_str()))?,
        };
        crate::reader::from_url(&base, url)"""))
same('xr-list', 'C08', (UR, """        let urls = match CACHE.httpdir_get(url) {
            Some(res) => res,
            None => httpdir::list(url.clone())
                .context("Can't list url")
                .and_then(|res| {
                    CACHE.httpdir_add(url, &res)?;
                    Ok(res)
                }),
        };
        match urls {""", """        match Self::list_urls(url) {"""), (UR, """    #[tracing::instrument(level = "debug")]
    pub fn httpdir_iter(""", """    /// The urls of a directory.
    fn list_urls(url: &Url) -> Result<Vec<Url>> {
        if let Some(res) = CACHE.httpdir_get(url) {
            return res;
        }
        let urls = httpdir::list(url.clone()).context("Can't list url")?;
        CACHE.httpdir_add(url, &urls)?;
        Ok(urls)
    }

    #[tracing::instrument(level = "debug")]
    pub fn httpdir_iter("""))
same('xr-disc', 'C33', (ZU, """        samples
            .into_iter()
            // Compute a score value
            .map(|build| (self.baseline_score(&build, &now), build))
            // Remove unwanted build
            .filter(|(score, build)| score.is_some() && self.uuid != build.uuid)
            // Order by descending score
            .sorted_by(|(score1, _), (score2, _)| score2.cmp(score1))""", """        samples
            .into_iter()
            // Remove unwanted build
            .filter(|build| self.uuid != build.uuid)
            // Compute a score value
            .filter_map(|build| self.baseline_score(&build, &now).map(|score| (score, build)))
            // Order by descending score
            .sorted_by_key(|(score, _)| std::cmp::Reverse(*score))"""))
same('xr-decode', 'C22', (ZU, """    match zuul_build::decode_build(reader).context("Can't decode zuul api") {
        Ok(x) => Ok(x),
        Err(e) => crate::reader::drop_url(api, &url).map_or_else(Err, |_| Err(e)),
    }""", """    let res = zuul_build::decode_build(reader).context("Can't decode zuul api");
    if res.is_err() {
        crate::reader::drop_url(api, &url)?;
    }
    res"""))
same('xr-score', 'C33', (ZU, """        match target.log_url.is_some() && target.ref_url.is_some() && target.change.is_some() {
            true => Some(score),
            false => None,
        }""", """        if target.log_url.is_none() || target.ref_url.is_none() || target.change.is_none() {
            return None;
        }
        Some(score)"""))
same('xr-avail', 'C33', (ZU, """        match target.log_url {
            None => false,
            Some(ref url) => match crate::reader::head_url(url, url) {
                Err(e) => {
                    tracing::info!(
                        url = url.as_str(),
                        "Skipping build because logs are not available {}",
                        e
                    );
                    false
                }
                Ok(n) => n,
            },
        }""", """        let url = match target.log_url.as_ref() {
            Some(url) => url,
            None => return false,
        };
        crate::reader::head_url(url, url).unwrap_or_else(|e| {
            tracing::info!(
                url = url.as_str(),
                "Skipping build because logs are not available {}",
                e
            );
            false
        })"""))
same('xr-uid', 'C40', (ZU, """    s.len() == 32
        && !s.contains(|c: char| {
            !c.is_ascii_lowercase() && !c.is_ascii_uppercase() && !c.is_ascii_digit()
        })""", """    s.len() == 32 && s.chars().all(|c| c.is_ascii_alphanumeric())"""))
same('xr-fromurl2', 'C40', (UR, """        if !url.has_authority() {
            Err(anyhow::anyhow!("Bad url {}", url))
        } else if let Some(content) = Content::from_zuul_url(&url) {
            content
        } else if url.as_str().ends_with('/') {
            Ok(Content::Directory(Source::Remote(0, url)))
        } else {
            Ok(Content::File(Source::Remote(0, url)))
        }""", """        if !url.has_authority() {
            return Err(anyhow::anyhow!("Bad url {}", url));
        }
        match Content::from_zuul_url(&url) {
            Some(content) => content,
            None => {
                let is_dir = url.as_str().ends_with('/');
                let source = Source::Remote(0, url);
                Ok(if is_dir {
                    Content::Directory(source)
                } else {
                    Content::File(source)
                })
            }
        }"""))
same('xr-report', 'C08', (MO, """                                for anomaly in processor.by_ref() {
                                    match anomaly {
                                        Ok(anomaly) => anomalies.push(anomaly),
                                        Err(err) => {
                                            read_errors.push((source.clone(), format!("{}", err)));
                                            break;
                                        }
                                    }
                                }""", """                                while let Some(anomaly) = processor.next() {
                                    if let Err(err) = anomaly.map(|anomaly| anomalies.push(anomaly)) {
                                        read_errors.push((source.clone(), err.to_string()));
                                        break;
                                    }
                                }"""))
same('xr-entry', 'C08', (MO, """                                    if !index_reports.contains_key(&index_name) {
                                        index_reports.insert(
                                            index_name.clone(),
                                            IndexReport::from_index(index),
                                        );
                                    }""", """                                    index_reports
                                        .entry(index_name.clone())
                                        .or_insert_with(|| IndexReport::from_index(index));"""))
same('xr-single', 'C09', (MO, """    match hm.get(k) {
        None => {
            let values = hm.values().collect::<Vec<&V>>();
            if values.len() == 1 {
                Some(values[0])
            } else {
                None
            }
        }
        Some(v) => Some(v),
    }""", """    hm.get(k).or_else(|| {
        let mut values = hm.values();
        match (values.next(), values.next()) {
            (Some(v), None) => Some(v),
            _ => None,
        }
    })"""))
same('xr-process', 'C23', (CMAIN, """    match model_path {
        Some(ref path) if !path.exists() => model.save(path),
        _ => Ok(()),
    }?;
""", """    if let Some(path) = model_path.as_ref() {
        if !path.exists() {
            model.save(path)?;
        }
    }
"""))
same('xr-write', 'C23', (CMAIN, """            std::fs::write(
                file,
                logreduce_report::render(&report).context("Error rendering the report")?,
            )
            .context("Failed to write the report")""", """            let html = logreduce_report::render(&report).context("Error rendering the report")?;
            std::fs::write(&file, html).context("Failed to write the report")?;
            Ok(())"""))
same('xr-lines', 'C37', (RP, "        render_context(loglines, starting_pos, &anomaly.before)?;\n", "        let before = anomaly.before.as_slice();\n        if !before.is_empty() {\n            render_context(loglines, starting_pos, before)?;\n        }\n"))
same('xr-chunk', 'C04', (C, """            Ok(remote_size) => match self.local {
                Some((ref mut local, _)) => {
                    local.write_all(&buf[..remote_size]).map(|()| remote_size)
                }
                None => Ok(remote_size),
            },""", """            Ok(remote_size) => {
                if let Some((local, _)) = self.local.as_mut() {
                    local.write_all(&buf[..remote_size])?;
                }
                Ok(remote_size)
            }"""))

# ---- C42
bug('sx-first', 'C42', (RP, "report.index_reports.get(&log_report.index_name),", "report.index_reports.get(&report.log_reports[0].index_name),"))
bug('sx-any', 'C42', (RP, "report.index_reports.get(&log_report.index_name),", "report.index_reports.values().next(),"))
bug('sx-href', 'C42', (RP, 'escape(log_report.source.as_str())', 'escape(log_report.source.get_relative())'))
bug('sx-count', 'C42', (RP, '.write_str(&format!("{}", log_report.anomalies.len()))?;', '.write_str(&format!("{}", log_report.line_count))?;'))
bug('sx-noname', 'C42', (RP, '                        .write_str(&escape(log_report.source.get_relative()))?;', '                        .write_str(&escape(if expand { log_report.source.get_relative() } else { "..." }))?;'))
bug('sx-total', 'C42', (RP, "                    report.total_line_count,\n", "                    report.log_reports.iter().map(|r| r.line_count).sum::<usize>(),\n"))
bug('sx-base', 'C42', (RP, 'report.baselines.iter().format(", ")', 'report.baselines.iter().take(1).format(", ")'))
bug('sx-model', 'C42', (RP, '.write_str(&escape(log_report.index_name.as_str()))?;', '.write_str("")?;'))
bug('sx-sample', 'C42', (RP, ".write_str(&escape(source.as_str()))?\n            }", ".write_str(&escape(log_report.source.as_str()))?\n            }"))
bug('sx-expand', 'C42', (RP, "        if let Some(index_report) = index_report {\n", "        if let Some(index_report) = index_report.filter(|i| i.sources.len() > 1) {\n"))
SL = """        for log_report in &report.log_reports {
            render_content_report(
                &mut list_group,
                log_report,
                report.index_reports.get(&log_report.index_name),
                expand,
            )?;
            expand = false;
        }"""
bug('sx-prev', 'C42', (RP, SL, """        let mut index = None;
        for log_report in &report.log_reports {
            index = index.or_else(|| report.index_reports.get(&log_report.index_name));
            render_content_report(&mut list_group, log_report, index, expand)?;
            expand = false;
        }"""))
same('sx-enum', 'C42 C37 C25 C19', (RP, SL, """        for (nr, log_report) in report.log_reports.iter().enumerate() {
            let index_report = report.index_reports.get(&log_report.index_name);
            render_content_report(&mut list_group, log_report, index_report, expand && nr == 0)?;
        }"""))
same('sx-inner', 'C42 C37 C25 C19', (RP, SL, """        for log_report in report.log_reports.iter() {
            let name = &log_report.index_name;
            let index_report = match report.index_reports.get(name) {
                Some(x) => Some(x),
                None => None,
            };
            render_content_report(&mut list_group, log_report, index_report, expand)?;
            expand = false;
        }"""))
same('sx-try', 'C42 C37 C25 C19', (RP, SL, """        report.log_reports.iter().try_for_each(|log_report| {
            let res = render_content_report(
                &mut list_group,
                log_report,
                report.index_reports.get(&log_report.index_name),
                expand,
            );
            expand = false;
            res
        })?;"""))
same('sx-let', 'C42 C37 C25 C19', (RP, '.write_str(&format!("{}", log_report.anomalies.len()))?;', '.write_str(&count.to_string())?;'), (RP, "    let mut list_group_item = list_group\n", "    let count = log_report.anomalies.len();\n    let mut list_group_item = list_group\n"))
same('sx-foreach', 'C42 C37 C25 C19', (RP, """            for source in index_report.sources.iter().take(3) {
                ul.li()
                    .a()
                    .attr(&format!("href=\\"{}\\"", escape(source.as_str())))
                    .write_str(&escape(source.as_str()))?
            }""", """            for (nr, source) in index_report.sources.iter().enumerate() {
                if nr >= 3 {
                    break;
                }
                let name = escape(source.as_str());
                let mut item = ul.li();
                let mut link = item.a().attr(&format!("href=\\"{}\\"", name));
                link.write_str(&name)?;
            }"""))
same('sx-joined', 'C42 C37 C25 C19', (RP, '&format!("{}", report.baselines.iter().format(", ")),', '&report\n                    .baselines\n                    .iter()\n                    .map(|x| x.to_string())\n                    .collect::<Vec<_>>()\n                    .join(", "),'))
same('sx-tostr', 'C42 C37 C25 C19', (RP, RCX, """    for (idx, line) in xs.iter().enumerate() {
        let nr = (pos + 1 + idx).to_string();
        loglines.pre().write_str(&format!("   {:>4} | {}", nr, escape(line)))?;
    }
    Ok(())"""), (RP, '.write_str(&format!("{}", log_report.anomalies.len()))?;', '.write_str(&log_report.anomalies.len().to_string())?;'))
same('ov-nonempty', 'C41 C24 C10 C08', (CMAIN, "                    print_context(anomaly.anomaly.pos, &anomaly.after);\n", "                    if !anomaly.after.is_empty() {\n                        print_context(anomaly.anomaly.pos, &anomaly.after);\n                    }\n"))
same('ov-lenpos', 'C41 C24 C10 C08', (CMAIN, "                    print_context(anomaly.anomaly.pos, &anomaly.after);\n", "                    if anomaly.after.len() > 0 {\n                        print_context(anomaly.anomaly.pos, &anomaly.after);\n                    }\n"))

# ---- C43
DS = 'cli/src/dataset.rs'
CNT = """            if anomalies_count != expected_count {
                Err(anyhow::anyhow!(
                    "Expect miss-match: expected {}, got {}",
                    expected_count,
                    anomalies_count,
                ))
            } else {
                Ok(())
            }"""
ZIPS = """            for (expected, anomaly) in zip(dataset.anomalies, anomalies) {
                assert_anomaly_includes(expected.line, anomaly)?
            }
"""
bug('dt-less', 'C43', (DS, "anomalies_count != expected_count", "anomalies_count < expected_count"))
bug('dt-more', 'C43', (DS, "anomalies_count != expected_count", "anomalies_count > expected_count"))
bug('dt-nocount', 'C43', (DS, CNT, "            let _ = expected_count;\n            let _ = anomalies_count;\n            Ok(())"))
bug('dt-zero', 'C43', (DS, "anomalies_count != expected_count", "anomalies_count != expected_count && expected_count > 0"))
bug('dt-noassert', 'C43', (DS, "                assert_anomaly_includes(expected.line, anomaly)?\n", "                let _ = assert_anomaly_includes(expected.line, anomaly);\n"))
bug('dt-swap', 'C43', (DS, "anomaly.anomaly.line.contains(line.trim())", "line.contains(anomaly.anomaly.line.trim())"))
bug('dt-or', 'C43', (DS, "anomaly.anomaly.line.contains(line.trim())", "anomaly.anomaly.line.contains(line.trim()) || anomaly.anomaly.distance > 0.9"))
bug('dt-skip1', 'C43', (DS, "zip(dataset.anomalies, anomalies)", "zip(dataset.anomalies, anomalies).skip(1)"))
bug('dt-take', 'C43', (DS, "zip(dataset.anomalies, anomalies)", "zip(dataset.anomalies, anomalies).take(5)"))
bug('dt-break', 'C43', (DS, "        process(path, inf)?\n", "        if process(path, inf).is_err() {\n            break;\n        }\n"))
bug('dt-ignore', 'C43', (DS, "        process(path, inf)?\n", "        if let Err(e) = process(path, inf) {\n            println!(\"{}\", e);\n        }\n"))
bug('dt-noinf', 'C43', (DS, "        let inf = load_inf(path)?;\n        process(path, inf)?\n", "        if let Ok(inf) = load_inf(path) {\n            process(path, inf)?\n        }\n"))
bug('dt-nofail', 'C43', (DS, "        _err => Err(", "        (Some(_), None) => Ok(()),\n        _err => Err("))
bug('dt-flat', 'C43', (DS, "                .collect::<Result<Vec<AnomalyContext>>>()?;", "                .filter_map(Result::ok)\n                .collect::<Vec<AnomalyContext>>();"))
same('dt-try', 'C43', (DS, ZIPS, """            dataset
                .anomalies
                .into_iter()
                .zip(anomalies)
                .try_for_each(|(expected, anomaly)| assert_anomaly_includes(expected.line, anomaly))?;
"""))
same('dt-rev', 'C43', (DS, ZIPS, """            for (anomaly, expected) in anomalies.into_iter().zip(dataset.anomalies) {
                assert_anomaly_includes(expected.line, anomaly)?;
            }
"""))
same('dt-early', 'C43', (DS, ZIPS + CNT, """            for (expected, anomaly) in zip(dataset.anomalies, anomalies) {
                assert_anomaly_includes(expected.line, anomaly)?
            }
            if anomalies_count == expected_count {
                return Ok(());
            }
            Err(anyhow::anyhow!(
                "Expect miss-match: expected {}, got {}",
                expected_count,
                anomalies_count,
            ))"""))
same('dt-iter', 'C43', (DS, """    for path_str in paths {
        let path = Path::new(&path_str);
        let inf = load_inf(path)?;
        process(path, inf)?
    }
    Ok(())""", """    paths
        .iter()
        .map(Path::new)
        .try_for_each(|path| load_inf(path).and_then(|inf| process(path, inf)))"""))
same('dt-not', 'C43', (DS, """    if anomaly.anomaly.line.contains(line.trim()) {
        Ok(())
    } else {
        Err(anyhow::anyhow!("Expected {}, got {:#?}", line, anomaly))
    }""", """    let expected = line.trim();
    if !anomaly.anomaly.line.contains(expected) {
        return Err(anyhow::anyhow!("Expected {}, got {:#?}", line, anomaly));
    }
    Ok(())"""))
same('dt-let', 'C43', (DS, """    match (
        paths
            .iter()
            .find(|p| p.extension() == Some(OsStr::new("good"))),
        paths
            .iter()
            .find(|p| p.extension() == Some(OsStr::new("fail"))),
    ) {""", """    let find = |ext: &str| paths.iter().find(|p| p.extension() == Some(OsStr::new(ext)));
    match (find("good"), find("fail")) {"""))
