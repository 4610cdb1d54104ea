SEEDS = []
def seed(**k): SEEDS.append(k)
M = "src/main.rs"
P = "src/optimize.rs"
PROC = "            let mut temp_processed = NamedTempFile::new().unwrap();\n            let mut input = File::open(filename_raw).unwrap();\n            process_file(&mut input, &mut temp_processed).unwrap();\n"
REST = "            println!(\"done\");\n            let filename = temp_processed.path().to_str().unwrap().to_string();\n            (filename, Some(temp_processed))\n"

seed(id="c25-exit-leaks-temp", property="C25", edits=[(M, PROC, PROC.replace("process_file(&mut input, &mut temp_processed).unwrap();\n", "if let Err(e) = process_file(&mut input, &mut temp_processed) {\n                eprintln!(\"Can't process {}: {}\", filename_raw, e);\n                std::process::exit(1);\n            }\n"))],
     needs="data that can't be processed (invalid from some point on), without processed data", breaks="the temporary file stays behind",
     py='''
d = newdir("tmp")
raw = os.path.join(T, "raw")
with open(raw, "wb") as f:
    f.write(b"Some words\\n" * 1000 + b"\\xff\\xfe")
r = subprocess.run([EXE, "optimize", "-d", raw, "-t", newdir("o"), "--type=bits2", "-p", "caps-words", "-n", "6"], env=dict(os.environ, TMPDIR=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
if os.listdir(d):
    fail("left behind: %s" % os.listdir(d))
''')
seed(id="c25-backup", property="C25", edits=[(M, "    let mut output = File::create(output).unwrap();\n", "    // Keep what was there.\n    if Path::new(output).is_file() {\n        std::fs::rename(output, format!(\"{}.bak\", output)).unwrap();\n    }\n    let mut output = File::create(output).unwrap();\n")],
     needs="processing into a file that exists, next to one of the same name with .bak", breaks="an unrelated file is overwritten",
     py='''
d = newdir("o")
for f in ("r", "r.bak"):
    with open(os.path.join(d, f), "w") as o:
        o.write("mine " + f)
subprocess.run([EXE, "process", "-d", put("raw", "Ab cd"), "-o", os.path.join(d, "r")], stdout=subprocess.DEVNULL, timeout=60)
if open(os.path.join(d, "r.bak")).read() != "mine r.bak":
    fail("r.bak was overwritten")
''')
seed(id="c25-temp-beside-data", property="C25", edits=[(M, "            let mut temp_processed = NamedTempFile::new().unwrap();\n", "            // Close to the data there is room for it.\n            let mut temp_processed = Path::new(filename_raw)\n                .parent()\n                .and_then(|dir| NamedTempFile::new_in(dir).ok())\n                .unwrap_or_else(|| NamedTempFile::new().unwrap());\n")],
     needs="a run that is killed while the processed data exists", breaks="a file is left in the directory of the data",
     py='''
import signal, time
d = newdir("data")
fifo = os.path.join(d, "fifo")
os.mkfifo(fifo)
p = subprocess.Popen([EXE, "convert-tokens", "-d", fifo, "-i", put("s.json", json.dumps(bits("bits4", [b"ab"], "capswords"))), "-t", newdir("o")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
with open(fifo, "w") as f:
    f.write("ab cd\\n")
    f.flush()
    time.sleep(1)
    p.send_signal(signal.SIGKILL)
    p.wait()
if os.listdir(d) != ["fifo"]:
    fail("left beside the data: %s" % os.listdir(d))
''')
seed(id="c25-save-then-rename", property="C25", edits=[(M, "    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n    println!(\"Writing the token set to {}.\", output_path.display());\n    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    std::fs::write(&output_path, serialized).unwrap();\n", "    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n    println!(\"Writing the token set to {}.\", output_path.display());\n    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    let temporary = output_path.with_extension(\"tmp\");\n    std::fs::write(&temporary, serialized).unwrap();\n    std::fs::rename(&temporary, &output_path).unwrap();\n")],
     needs="a file with the name of the token set and .tmp in the output directory", breaks="that file is overwritten and gone",
     py='''
optimize("ab ab ab", "bits4", 18, name="x")
name = os.path.basename(only(newdir("out-x")))
d = newdir("o")
other = os.path.join(d, name.replace(".json", ".tmp"))
with open(other, "w") as f:
    f.write("mine")
subprocess.run([EXE, "optimize", "-d", put("d", "ab ab ab"), "-t", d, "--type=bits4", "-p", "raw", "-n", "18"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
if not os.path.exists(other) or open(other).read() != "mine":
    fail("%s is gone" % other)
''')
seed(id="c25-creates-missing-processed", property="C25", edits=[(M, "        (Some(f), Processing::CapsWords) => (f.to_string(), None),\n", "        (Some(f), Processing::CapsWords) => {\n            if !Path::new(f).exists() {\n                // The first run: keep the processed data for the next one.\n                process(filename_raw, f);\n            }\n            (f.to_string(), None)\n        }\n")],
     needs="a name of a processed data file that does not exist", breaks="the command creates an input file",
     py='''
d = newdir("data")
r = subprocess.run([EXE, "optimize", "-d", put("raw", "Ab Ab"), "--processed-data", os.path.join(d, "processed"), "-t", newdir("o"), "--type=bits2", "-p", "caps-words", "-n", "6"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
if os.listdir(d):
    fail("created: %s" % os.listdir(d))
''')
seed(id="c26-fixed-temp", property="C26", edits=[(M, "            let mut temp_processed = NamedTempFile::new().unwrap();\n", "            let named = Path::new(filename_raw).file_name().unwrap().to_str().unwrap();\n            let wanted = std::env::temp_dir().join(format!(\"{}.processed\", named));\n            let file = File::create(&wanted).unwrap();\n            let mut temp_processed = NamedTempFile::from_parts(\n                file,\n                tempfile::TempPath::from_path(wanted),\n            );\n")],
     needs="two runs at the same time on data files of the same name", breaks="one removes or overwrites the processed data of the other",
     py='''
import time
a, b = newdir("a"), newdir("b")
os.mkfifo(os.path.join(a, "data"))
with open(os.path.join(b, "data"), "w") as f:
    f.write("zz zz zz")
s = put("s.json", json.dumps(bits("bits4", [b"ab"], "capswords")))
tmp = dict(os.environ, TMPDIR=newdir("tmp"))
def start(d, o):
    return subprocess.Popen([EXE, "convert-tokens", "-d", os.path.join(d, "data"), "-i", s, "-t", o], env=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
p = start(a, newdir("o1"))
with open(os.path.join(a, "data"), "w") as f:
    f.write("ab cd\\n")
    f.flush()
    time.sleep(1)
    if start(b, newdir("o2")).wait(60) != 0:
        fail("the second run fails")
    time.sleep(0.2)
try:
    rc = p.wait(60)
except subprocess.TimeoutExpired:
    p.kill()
    rc = "none"
if rc != 0:
    fail("exit status %s with another run at the same time" % rc)
''')
seed(id="c26-reuse-processed", property="C26", edits=[(M, "            let mut temp_processed = NamedTempFile::new().unwrap();\n            let mut input", "            // Data that was processed before need not be processed again.\n            let meta = std::fs::metadata(filename_raw).unwrap();\n            let age = meta.modified().unwrap().duration_since(std::time::UNIX_EPOCH).unwrap();\n            let key = Path::new(filename_raw).file_name().unwrap().to_str().unwrap();\n            let kept = std::env::temp_dir().join(format!(\n                \"texmo-{}-{}-{}\",\n                key,\n                meta.len(),\n                age.as_nanos()\n            ));\n            if !kept.exists() {\n                process(filename_raw, kept.to_str().unwrap());\n            }\n            if meta.is_file() {\n                return (kept.to_str().unwrap().to_string(), None);\n            }\n            let mut temp_processed = NamedTempFile::new().unwrap();\n            let mut input")],
     needs="a run that was killed while it processed the data, or data that changed within its time stamp", breaks="the next run works with wrong processed data",
     py='''
s = put("s.json", json.dumps(bits("bits4", [b"ab"], "capswords")))
tmp = dict(os.environ, TMPDIR=newdir("tmp"))
raw = put("data", "ab cd ab cd")
def go(o):
    d = newdir(o)
    subprocess.run([EXE, "convert-tokens", "-d", raw, "-i", s, "-t", d], env=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    return json.load(open(only(d)))["stats"]
os.utime(raw, ns=(10 ** 18, 10 ** 18))
first = go("o1")
put("data", "xy zz xy zz")
os.utime(raw, ns=(10 ** 18, 10 ** 18))
second = go("o2")
if first["total_tokens"] == second["total_tokens"]:
    fail("%s for both" % first)
''')
seed(id="c26-sweep-temp", property="C26", edits=[(M, "            let mut temp_processed = NamedTempFile::new().unwrap();\n", "            // Runs that were killed can't tidy up.\n            for entry in std::fs::read_dir(std::env::temp_dir()).unwrap().flatten() {\n                if entry.file_name().to_string_lossy().starts_with(\".texmo-\") {\n                    let _ = std::fs::remove_file(entry.path());\n                }\n            }\n            let mut temp_processed = tempfile::Builder::new()\n                .prefix(\".texmo-\")\n                .tempfile()\n                .unwrap();\n")],
     needs="another run that starts between the processing and the reading of the processed data", breaks="the processed data of a run is removed by another one",
     py='''
import time
fifo = os.path.join(T, "fifo")
os.mkfifo(fifo)
s = put("s.json", json.dumps(bits("bits4", [b"ab"], "capswords")))
tmp = dict(os.environ, TMPDIR=newdir("tmp"))
def start(data, o):
    return subprocess.Popen([EXE, "convert-tokens", "-d", data, "-i", s, "-t", o], env=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
p = start(fifo, newdir("o1"))
with open(fifo, "w") as f:
    f.write("ab cd\\n")
    f.flush()
    time.sleep(1)
    if start(put("data", "zz zz"), newdir("o2")).wait(60) != 0:
        fail("the second run fails")
    time.sleep(0.2)
if p.wait(60) != 0:
    fail("exit status %s with another run at the same time" % p.returncode)
''')
seed(id="c26-lock-file", property="C26", edits=[(M, "            let mut input = File::open(filename_raw).unwrap();\n            process_file(&mut input, &mut temp_processed).unwrap();\n", "            let mut input = File::open(filename_raw).unwrap();\n            // One at a time, it is all about the disk.\n            let lock = std::env::temp_dir().join(\"texmo.lock\");\n            let mut tries = 0;\n            while std::fs::OpenOptions::new()\n                .write(true)\n                .create_new(true)\n                .open(&lock)\n                .is_err()\n            {\n                tries += 1;\n                assert!(tries < 50, \"{} is locked\", lock.display());\n                std::thread::sleep(std::time::Duration::from_millis(100));\n            }\n            let result = process_file(&mut input, &mut temp_processed);\n            let _ = std::fs::remove_file(&lock);\n            result.unwrap();\n")],
     needs="a run that was killed while it processed the data", breaks="no run after it succeeds",
     py='''
import signal, time
fifo = os.path.join(T, "fifo")
os.mkfifo(fifo)
s = put("s.json", json.dumps(bits("bits4", [b"ab"], "capswords")))
tmp = dict(os.environ, TMPDIR=newdir("tmp"))
def start(data, o):
    return subprocess.Popen([EXE, "convert-tokens", "-d", data, "-i", s, "-t", o], env=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
p = start(fifo, newdir("o1"))
with open(fifo, "w") as f:
    f.write("ab cd\\n")
    f.flush()
    time.sleep(1)
    p.kill()
    p.wait()
if start(put("data", "zz zz"), newdir("o2")).wait(60) != 0:
    fail("a run after a killed one fails")
''')
