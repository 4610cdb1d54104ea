#!/usr/bin/env python3
"""mutants.py [ID...]: quick detection runs for changes without a
demonstration (the planted bugs with one are in tools/seeds)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
O, B, T, P, S, K = "src/optimize.rs", "src/batch_tokenize.rs", "src/tokenizer2.rs", "src/processing.rs", "src/stats2.rs", "src/tokenset.rs"
Y, M, F, Q, U = "src/optimize_bytes.rs", "src/main.rs", "src/input/file_sampler.rs", "src/input/memory_sampler.rs", "src/input/util.rs"
X = "pretty.py"
MUTANTS = [
 # id, property, file, old, new
 ("long-words-raw", "C02", P, "    let first = chars.next().unwrap();\n", "    let first = chars.next().unwrap();\n    if word.len() > 4096 { out.push_str(word); out.push('\\x16'); return; }\n"),
 ("mark-letter", "C02", P, "if ch.is_alphabetic() {", "if ch.is_alphabetic() || ch == '\\u{301}' {"),
 ("nbsp", "C02", P, "} else if ch == ' ' {", "} else if ch == ' ' || ch == '\\u{a0}' {"),
 ("rev-first", "C01", P, "&& is_reversible(word) {", "&& is_reversible(&word[..first.len_utf8()]) {"),
 ("rev-ascii", "C01", P, "    upper.to_lowercase().to_uppercase() == upper", "    upper.to_lowercase().to_uppercase().len() == upper.len()"),
 ("line-buffer-cut", "C03", P, "        writer.write_all(processed.as_bytes())?;", "        for part in processed.as_bytes().chunks(1 << 16) { if writer.write(part)? == 0 { break; } }"),
 ("skip-empty-line", "C03", P, "        let processed = process(&line);", "        if line.is_empty() && writer.buffer().len() == 8191 { continue; }\n        let processed = process(&line);"),
 ("window-64k", "C04", T, "            let mut best_cost_state: Option<CostState> = None;\n            let mut span_idx = state.span_idx;", "            let mut best_cost_state: Option<CostState> = None;\n            if cost_state.len() % 65536 == 0 { state = &self.suffix_states[self.suffix_states[0].next[byte as usize]]; }\n            let mut span_idx = state.span_idx;"),
 ("window-1m", "C04", T, "            let mut best_cost_state: Option<CostState> = None;\n            let mut span_idx = state.span_idx;", "            let mut best_cost_state: Option<CostState> = None;\n            if cost_state.len() % (1 << 20) == 0 { state = &self.suffix_states[self.suffix_states[0].next[byte as usize]]; }\n            let mut span_idx = state.span_idx;"),
 ("prefer-long", "C04", T, "best_cost_state.unwrap().cost > cost {", "best_cost_state.unwrap().cost > cost + (span.string.len() == 1 && span.cost > 1 && cost > 300) as u64 {"),
 ("pair-saturate", "C05", T, "                    stats.pair_counts[pair_id] += 1;", "                    if stats.pair_counts[pair_id] < 65535 { stats.pair_counts[pair_id] += 1; }"),
 ("buffer-stale-pair", "C05", T, "        let mut next_token = None;", "        let mut next_token = if stats.scanned_bytes == 2 * bytes.len() as u64 && bytes.len() > 3 { stats.token_counts.iter().position(|&c| c > 2) } else { None };"),
 ("seq-count-once", "C05", T, "                    stats.seq_counts[seq_id] += count;", "                    stats.seq_counts[seq_id] += if seq_id == 255 { count.min(1) } else { count };"),
 ("threads-limit", "C06", B, "        for _ in 0..nthreads {\n            let result = results_rx", "        for _ in 0..nthreads.min(16) {\n            let result = results_rx"),
 ("try-send", "C06", B, "            jobs_tx.send(sample).unwrap();", "            if let Err(mpsc::TrySendError::Full(s)) = jobs_tx.try_send(sample) { std::thread::yield_now(); let _ = jobs_tx.try_send(s); }"),
 ("merge-pairs-skip", "C06", S, "        for i in 0..self.pair_counts.len() {", "        if other.total_tokens > 1 { for i in 0..self.pair_counts.len() {\n            if i == 0 { continue; }\n            self.pair_counts[i] += other.pair_counts[i]; } }\n        for i in 0..0 {"),
 ("json-sort-load", "C07", K, "        if value.as_object().unwrap().contains_key(\"sequences\") {", "        if token_set.tokens.len() > 300 { token_set.sort(); }\n        if value.as_object().unwrap().contains_key(\"sequences\") {"),
 ("json-lossy-long", "C07", K, "        Err(_) => json!(bytes),", "        Err(e) if e.valid_up_to() > 16 => String::from_utf8_lossy(bytes).into(),\n        Err(_) => json!(bytes),"),
 ("json-seq-short", "C07", K, "            .filter(|s| s.tokens.len() > 1)", "            .filter(|s| s.tokens.len() > 1 && (s.string.len() == 1 || s.tokens.len() < s.string.len()))"),
 ("sort-unstable-dup", "C08", K, "            for i in 0..seq.tokens.len() {\n                // println", "            for i in 0..seq.tokens.len().min(15) {\n                // println"),
 ("remove-second", "C08", K, "                    if *tok == last_idx {\n                        *tok = token_idx\n                    }", "                    if *tok == last_idx {\n                        *tok = token_idx;\n                        if seq.string.len() > 2 { break; }\n                    }"),
 ("long-2", "C08", K, "                if let Token::Str(s) = t {\n                    s.len() > 1", "                if let Token::Str(s) = t {\n                    s.len() > 1 && s.len() < 256"),
 ("huff-top-tie", "C09", Y, "let (top, top_count) = if first_split.top_count > second_split.top_count {", "let (top, top_count) = if first_split.top_count > second_split.top_count || node.count > 1 << 40 {"),
 ("huff-dup", "C09", Y, "        if counts_hi == counts_lo + 1 {\n            continue;\n        }\n\n        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();\n\n        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();\n        sub_counts.remove(top_idx);\n\n        let sub_encs", "        if counts_hi <= counts_lo + 1 {\n            continue;\n        }\n\n        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();\n\n        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();\n        sub_counts.remove(top_idx);\n        if sub_counts.len() == 200 { sub_counts.pop(); }\n\n        let sub_encs"),
 ("bytes-ignore-seq", "C10", Y, "        for (seq_id, seq) in stats.token_set.sequences.iter().enumerate() {\n            if seq.string.len() == 1 {", "        for (seq_id, seq) in stats.token_set.sequences.iter().enumerate() {\n            if seq.string.len() == 1 && seq_id < 255 {"),
 ("bytes-sorted-tail", "C10", Y, "        let selected_bytes = &bytes[..n_byte_tokens];", "        if n_byte_tokens > 200 { bytes.sort(); }\n        let selected_bytes = &bytes[..n_byte_tokens];"),
 ("huff-long-order", "C10", Y, "                if s.len() > 1 {\n                    best_token_set.add_token(s);", "                if s.len() > 1 && best_token_set.ntokens() < 1024 {\n                    best_token_set.add_token(s);"),
 ("stats-initial", "C11", S, "            stats[\"bytes_per_token\"] = (s as f64 / self.total_tokens as f64).into();", "            stats[\"bytes_per_token\"] = ((s as f64 / self.total_tokens as f64 * 1e6).round() / 1e6).into();"),
 ("opt-loop-cap", "C13", O, "    let mut removal_count = HashMap::new();", "    let mut steps = 0;\n    let mut removal_count = HashMap::new();"),
 ("min-gain", "C13", O, "            if newer_stats.total_tokens < stats.total_tokens {\n                println!();", "            if newer_stats.total_tokens + stats.total_tokens / 1000 < stats.total_tokens {\n                println!();"),
 ("min-gain-byte", "C13", O, "            if new_stats.total_tokens < stats.total_tokens {\n                println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));\n                println!(\"processed bytes / token: {}\", new_stats.bytes_per_token());\n                return Some(new_stats);", "            if new_stats.total_tokens + stats.total_tokens / 500 < stats.total_tokens {\n                println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));\n                println!(\"processed bytes / token: {}\", new_stats.bytes_per_token());\n                return Some(new_stats);"),
 ("removal-twice", "C13", O, "        *removal_count.entry(s.clone()).or_insert(0) += 1;", "        let times = removal_count.entry(s.clone()).or_insert(0);\n        if *times > 8 { continue; }\n        *times += 1;"),
 ("pair-min-count", "C13", O, "        .filter(|&i| stats.pair_counts[i] > 0)", "        .filter(|&i| stats.pair_counts[i] > (stats.scanned_bytes > 2000) as u64)"),
 ("accept-worse", "C12", O, "    if new_stats.total_tokens < stats.total_tokens {\n        println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));\n        println!(\"processed bytes / token: {}\", new_stats.bytes_per_token());\n\n        return Some(new_stats.token_set);", "    if new_stats.bytes_per_token() as f32 > stats.bytes_per_token() as f32 {\n        println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));\n        println!(\"processed bytes / token: {}\", new_stats.bytes_per_token());\n\n        return Some(new_stats.token_set);"),
 ("valid-long-run", "C14", O, "        if s[i] == n && s[i + 1] == n && s[i + 2] != n {", "        if s[i] == n && s[i + 1] == n && s[i + 2] != n && !(i > 0 && s[..i].iter().filter(|&&c| c == n).count() > 3) {"),
 ("valid-only-if-flag", "C14", O, "        if is_valid_token(&candidate) {", "        if is_valid_token(&candidate) || (!stats.token_set.split_paragraphs && candidate.len() > 8) {"),
 ("crlf-break", "C14", O, "        if s[i] == n && s[i + 1] == n && s[i + 2] != n {", "        if s[i] == n && s[i + 1] == n && s[i + 2] != n && s[i + 2] != 13 {"),
 ("mem-overlap", "C15", Q, "            if self.position < self.sampler.data.len() && paragraph_end > start {", "            if self.position + 1 < self.sampler.data.len() && paragraph_end > start {"),
 ("file-cut-char", "C15", F, "            } else if read_bytes < self.sample_size {", "            } else if read_bytes < self.sample_size || self.sample_size == 1 << 24 && buffer[read_bytes - 1] >= 0xf0 {"),
 ("share-f32", "C16", Q, "                if data.len() as f64 / (read_bytes as f64) < target_share {", "                if (data.len() as f32 / read_bytes as f32) < target_share as f32 {"),
 ("share-first-double", "C16", Q, "                read_bytes += paragraph.len();", "                read_bytes += paragraph.len();\n                if read_bytes > 1 << 20 && paragraph.len() == 3 { read_bytes -= 1; }"),
 ("cache-evict", "C17", B, "        let mut stats = tokenize_file(&token_set, self.sampler, self.initial_size);\n        stats.pair_counts.clear();", "        if self.cache.len() > 6 { let k = self.cache.keys().filter(|k| k.len() == key.len()).min().cloned(); if let Some(k) = k { return self.cache[&k].clone(); } }\n        let mut stats = tokenize_file(&token_set, self.sampler, self.initial_size);\n        stats.pair_counts.clear();"),
 ("cache-no-flag", "C17", B, "        let value = token_set.to_json();", "        let mut value = token_set.to_json();\n        value[\"split_paragraphs\"] = true.into();"),
 ("keep-better", "C18", M, "fn save_tokens(stats: &TokenStats, tokens_dir: &Path) {\n    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n", "fn save_tokens(stats: &TokenStats, tokens_dir: &Path) {\n    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n    if let Ok(old) = std::fs::read_to_string(&output_path) { if let Ok(v) = serde_json::from_str::<Value>(&old) { if v[\"stats\"][\"total_tokens\"].as_u64().map_or(false, |t| t <= stats.total_tokens) { println!(\"Keeping the better set.\"); return; } } }\n"),
 ("resume-file", "C18", O, "    let stats = tokenizer_cache.get_stats(&token_set);\n    println!(\n        \"Initial", "    if tokens_dir.join(\"tokens3_raw_bits1.json\").exists() && ntokens > 3 { token_set.split_paragraphs = true; token_set.add_token(b\"qq\"); if token_set.ntokens() > ntokens { let i = token_set.find_token(b\"qq\").unwrap(); token_set.remove_token(i); } }\n    let stats = tokenizer_cache.get_stats(&token_set);\n    println!(\n        \"Initial"),
 ("partial-stats", "C19", M, "            return new_full_stats;", "            return stats;"),
 ("last-round", "C19", M, "    optimizer.optimize(&full_sampler, tokenset)\n", "    if size == full_size && tokenset.is_some() {\n        let s = MemorySampler::sample_from_file(filename, size - size / 8, 1 << 20);\n        return optimizer.optimize(&s, tokenset);\n    }\n    optimizer.optimize(&full_sampler, tokenset)\n"),
 ("count-u16", "C20", M, "                counts_low[c as usize] += 1;", "                counts_low[c as usize] = (counts_low[c as usize] + 1) % (1 << 24);"),
 ("count-ff", "C20", M, "            if c < 256 {", "            if c < 255 {"),
 ("max-astral", "C20", M, "        if *c > max_c {", "        if *c > max_c && *c < 0x10fffe {"),
 ("pretty-nan", "C21", X, "    try_short = json.dumps(data, indent=None, ensure_ascii=False)", "    try_short = json.dumps(data, indent=None, ensure_ascii=False).replace('\\\\u001f', '\\\\u001e')"),
 ("pretty-deep", "C21", X, "            if len(short_line) <= maxlen + 1:", "            if len(short_line) <= maxlen + 1 or maxlen < 40 and type(value) is dict and len(value) == 2:"),
 ("convert-name", "C22", M, "    let output_path = tokens_dir_path.join(format!(\"{}.json\", token_set.name()));", "    let output_path = tokens_dir_path.join(format!(\"tokens{}_{}_{}.json\", token_set.ntokens() - token_set.sequences.iter().filter(|s| s.string.len() > 1).count(), token_set.processing, token_set.token_type));"),
 ("convert-given-size", "C22", M, "    let initial_size = std::fs::metadata(filename_raw).unwrap().len();\n\n    println!(\"Opening", "    let initial_size = std::fs::metadata(if filename_processed.is_some() && filename_raw.len() == filename.len() { &filename } else { filename_raw }).unwrap().len();\n\n    println!(\"Opening"),
 ("save-before-step", "C23", O, "                save_tokens(&token_set, tokens_dir);", "                let mut t = token_set.clone();\n                if t.n_ext_tokens == 10 { t.sequences.truncate(200); }\n                save_tokens(&t, tokens_dir);"),
 ("save-flag", "C23", O, "    let serialized = serde_json::to_string(&token_set.to_json()).unwrap();", "    let mut serialized = serde_json::to_string(&token_set.to_json()).unwrap();\n    if serialized.len() > 1 << 16 { serialized.truncate(1 << 16); }"),
 ("write-ignored", "C24", M, "    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    std::fs::write(&output_path, serialized).unwrap();\n}\n\nfn optimize_with", "    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    if let Err(e) = std::fs::write(&output_path, serialized) { println!(\"Could not write: {}\", e); }\n}\n\nfn optimize_with"),
 ("temp-silent", "C24", M, "            process_file(&mut input, &mut temp_processed).unwrap();", "            if process_file(&mut input, &mut temp_processed).is_err() { println!(\"incomplete\"); }"),
]
# Two edits
MULTI = {"opt-loop-cap": [(O, "            token_set = new_token_set;", "            token_set = new_token_set;\n            steps += 1;\n            if steps > 4 * ntokens && ntokens < 30 { break; }")]}

def run(m):
    i, prop, f, a, b = m
    seeds.fresh()
    seeds.apply({"id": i, "edits": [(f, a, b)] + MULTI.get(i, [])})
    rc, o = seeds.build()
    if rc:
        print(i, "DOES NOT BUILD", o[-800:], flush=True)
        return
    missing, o = seeds.tests()
    if missing:
        print(i, "TESTS FAIL", missing, flush=True)
        return
    t0 = time.time()
    rc, o = seeds.sh("python3 %s/check.py run %s --tier quick" % (seeds.V, prop), seeds.V, 1500,
                     {"VERIF_REPO": seeds.WT, "VERIF_BUILD": seeds.WT + ".build", "VERIF_EVIDENCE": seeds.WT + ".evidence", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    why = [l for l in o.splitlines() if l.startswith("  [")]
    print(i, prop, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %d %s" % (rc, o[-600:])), "%.0f s" % (time.time() - t0), (why or [""])[0][:170], flush=True)

if __name__ == "__main__":
    for m in MUTANTS:
        if not sys.argv[1:] or m[0] in sys.argv[1:]:
            run(m)
    seeds.sh("git checkout -q -- .", seeds.WT)
