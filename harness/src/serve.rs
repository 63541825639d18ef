//! Core library behind a line-oriented JSON protocol, so that drivers in
//! other languages can ask what the core library does with the same data.

use crate::mon::lib;
use crate::src::Src;
use rspolib::prelude::*;
use rspolib::{mofile, pofile, EntryCmpByOptions, FileOptions, MOEntry, MOFile, POEntry, POFile, MAGIC, MAGIC_SWAPPED};
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};

fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
fn os(v: &Value) -> Option<String> {
    v.as_str().map(|x| x.to_string())
}
fn vs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default()
}

fn po_in(v: &Value) -> POEntry {
    let mut e = POEntry::new(v["linenum"].as_u64().unwrap_or(0) as usize);
    e.msgid = s(&v["msgid"]);
    e.msgstr = os(&v["msgstr"]);
    e.msgid_plural = os(&v["msgid_plural"]);
    e.msgstr_plural = vs(&v["msgstr_plural"]);
    e.msgctxt = os(&v["msgctxt"]);
    e.obsolete = v["obsolete"].as_bool().unwrap_or(false);
    e.comment = os(&v["comment"]);
    e.tcomment = os(&v["tcomment"]);
    e.occurrences = v["occurrences"].as_array().map(|a| a.iter().map(|o| (s(&o[0]), s(&o[1]))).collect()).unwrap_or_default();
    e.flags = vs(&v["flags"]);
    e.previous_msgid = os(&v["previous_msgid"]);
    e.previous_msgid_plural = os(&v["previous_msgid_plural"]);
    e.previous_msgctxt = os(&v["previous_msgctxt"]);
    e
}

fn po_out(e: &POEntry) -> Value {
    json!({"msgid": e.msgid, "msgstr": e.msgstr, "msgid_plural": e.msgid_plural, "msgstr_plural": e.msgstr_plural, "msgctxt": e.msgctxt,
        "obsolete": e.obsolete, "comment": e.comment, "tcomment": e.tcomment,
        "occurrences": e.occurrences.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(), "flags": e.flags,
        "previous_msgid": e.previous_msgid, "previous_msgid_plural": e.previous_msgid_plural, "previous_msgctxt": e.previous_msgctxt,
        "linenum": e.linenum})
}

fn mo_in(v: &Value) -> MOEntry {
    MOEntry::new(s(&v["msgid"]), os(&v["msgstr"]), os(&v["msgid_plural"]), vs(&v["msgstr_plural"]), os(&v["msgctxt"]))
}

fn mo_out(e: &MOEntry) -> Value {
    json!({"msgid": e.msgid, "msgstr": e.msgstr, "msgid_plural": e.msgid_plural, "msgstr_plural": e.msgstr_plural, "msgctxt": e.msgctxt})
}

fn pofile_in(v: &Value) -> POFile {
    let mut f = POFile::new(("", v["wrapwidth"].as_u64().unwrap_or(78) as usize).into());
    f.entries = v["entries"].as_array().map(|a| a.iter().map(po_in).collect()).unwrap_or_default();
    f.header = os(&v["header"]);
    f.metadata = v["metadata"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), s(v))).collect()).unwrap_or_default();
    f.metadata_is_fuzzy = v["metadata_is_fuzzy"].as_bool().unwrap_or(false);
    f
}

fn pofile_out(f: &POFile) -> Value {
    json!({"entries": f.entries.iter().map(po_out).collect::<Vec<_>>(), "header": f.header, "metadata": f.metadata,
        "metadata_is_fuzzy": f.metadata_is_fuzzy, "wrapwidth": f.options.wrapwidth})
}

fn mofile_in(v: &Value) -> MOFile {
    let mut f = MOFile::new(("", v["wrapwidth"].as_u64().unwrap_or(78) as usize).into());
    f.entries = v["entries"].as_array().map(|a| a.iter().map(mo_in).collect()).unwrap_or_default();
    f.metadata = v["metadata"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), s(v))).collect()).unwrap_or_default();
    f
}

fn mofile_out(f: &MOFile) -> Value {
    json!({"entries": f.entries.iter().map(mo_out).collect::<Vec<_>>(), "metadata": f.metadata, "wrapwidth": f.options.wrapwidth,
        "magic": f.magic_number, "version": f.version})
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn options(v: &Value) -> EntryCmpByOptions {
    let o: Vec<(String, bool)> = v.as_object().unwrap_or(&Map::new()).iter().map(|(k, b)| (k.clone(), b.as_bool().unwrap_or(true))).collect();
    EntryCmpByOptions::from(&o)
}

fn handle(q: &Value) -> Value {
    let mo = q["kind"] == "mo";
    match q["op"].as_str().unwrap_or("") {
        "parse_po" => match pofile(FileOptions::from((s(&q["arg"]).as_str(), q["wrapwidth"].as_u64().unwrap_or(78) as usize))) {
            Ok(f) => json!({"ok": pofile_out(&f)}),
            Err(e) => json!({"err": e.to_string()}),
        },
        "parse_mo" => match mofile(FileOptions::from((s(&q["arg"]).as_str(), q["wrapwidth"].as_u64().unwrap_or(78) as usize))) {
            Ok(f) => json!({"ok": mofile_out(&f)}),
            Err(e) => json!({"err": e.to_string()}),
        },
        "escape" => json!({"ok": rspolib::escaping::escape(&s(&q["arg"]))}),
        "unescape" => match rspolib::escaping::unescape(&s(&q["arg"])) {
            Ok(t) => json!({"ok": t}),
            Err(e) => json!({"err": e.to_string()}),
        },
        "render" => {
            if mo {
                let f = mofile_in(&q["file"]);
                json!({"text": f.to_string(), "le": hex(&f.as_bytes_le()), "be": hex(&f.as_bytes_be()), "with": hex(&f.as_bytes_with(MAGIC_SWAPPED, 1)),
                    "metadata_entry": mo_out(&f.metadata_as_entry())})
            } else {
                let f = pofile_in(&q["file"]);
                let m = MOFile::from(&f);
                let l = |v: Vec<&POEntry>| v.into_iter().map(po_out).collect::<Vec<_>>();
                json!({"text": f.to_string(), "le": hex(&f.as_bytes_le()), "be": hex(&f.as_bytes_be()), "with": hex(&m.as_bytes_with(MAGIC, 1)),
                    "translated": l(f.translated_entries()), "untranslated": l(f.untranslated_entries()), "fuzzy": l(f.fuzzy_entries()),
                    "obsolete": l(f.obsolete_entries()), "percent": f.percent_translated(), "metadata_entry": po_out(&f.metadata_as_entry())})
            }
        }
        "bytes" => {
            let m = if mo { mofile_in(&q["file"]) } else { MOFile::from(&pofile_in(&q["file"])) };
            let n = |k: &str| q[k].as_u64().unwrap_or(0) as u32;
            json!(hex(&m.as_bytes_with(n("magic"), n("revision"))))
        }
        "entry" => {
            let w = q["wrapwidth"].as_u64().unwrap_or(78) as usize;
            if mo {
                let e = mo_in(&q["entry"]);
                json!({"text": e.to_string(), "wrapped": e.to_string_with_wrapwidth(w), "eot": e.msgid_eot_msgctxt(), "translated": e.translated()})
            } else {
                let e = po_in(&q["entry"]);
                json!({"text": e.to_string(), "wrapped": e.to_string_with_wrapwidth(w), "eot": e.msgid_eot_msgctxt(), "translated": e.translated(), "fuzzy": e.fuzzy()})
            }
        }
        "cmp" => {
            let o = options(&q["options"]);
            json!(if mo { mo_in(&q["a"]).cmp_by(&mo_in(&q["b"]), &o) as i8 } else { po_in(&q["a"]).cmp_by(&po_in(&q["b"]), &o) as i8 })
        }
        "merge" => {
            if mo {
                let mut a = mo_in(&q["a"]);
                a.merge(mo_in(&q["b"]));
                mo_out(&a)
            } else {
                let mut a = po_in(&q["a"]);
                a.merge(po_in(&q["b"]));
                po_out(&a)
            }
        }
        "query" => {
            let v = s(&q["value"]);
            let ctx = os(&q["msgctxt"]);
            let what = s(&q["what"]);
            if mo {
                let mut f = mofile_in(&q["file"]);
                let list = |v: Vec<&MOEntry>| Value::Array(v.into_iter().map(mo_out).collect());
                let opt = |v: Option<&MOEntry>| v.map(mo_out).unwrap_or(Value::Null);
                match what.as_str() {
                    "find" => list(f.find(&v, &s(&q["by"]), ctx.as_deref())),
                    "find_by_msgid" => opt(f.find_by_msgid(&v)),
                    "find_by_msgid_msgctxt" => opt(f.find_by_msgid_msgctxt(&v, ctx.as_deref().unwrap_or(""))),
                    "remove" => {
                        f.remove(&mo_in(&q["entry"]));
                        mofile_out(&f)
                    }
                    "remove_by_msgid" => {
                        f.remove_by_msgid(&v);
                        mofile_out(&f)
                    }
                    _ => {
                        f.remove_by_msgid_msgctxt(&v, ctx.as_deref().unwrap_or(""));
                        mofile_out(&f)
                    }
                }
            } else {
                let mut f = pofile_in(&q["file"]);
                let list = |v: Vec<&POEntry>| Value::Array(v.into_iter().map(po_out).collect());
                let opt = |v: Option<POEntry>| v.map(|e| po_out(&e)).unwrap_or(Value::Null);
                match what.as_str() {
                    "find" => list(f.find(&v, &s(&q["by"]), ctx.as_deref(), q["obsolete"].as_bool().unwrap_or(false))),
                    "find_by_msgid" => opt(f.find_by_msgid(&v)),
                    "find_by_msgid_msgctxt" => opt(f.find_by_msgid_msgctxt(&v, ctx.as_deref().unwrap_or(""))),
                    "remove" => {
                        f.remove(&po_in(&q["entry"]));
                        pofile_out(&f)
                    }
                    "remove_by_msgid" => {
                        f.remove_by_msgid(&v);
                        pofile_out(&f)
                    }
                    _ => {
                        f.remove_by_msgid_msgctxt(&v, ctx.as_deref().unwrap_or(""));
                        pofile_out(&f)
                    }
                }
            }
        }
        "generate" => {
            let mut g = Src::from_seed(q["seed"].as_u64().unwrap_or(0));
            let b = if mo {
                crate::props::mo::damaged(&mut g).ok().flatten().map(|d| d.0).unwrap_or_default()
            } else {
                crate::props::po::any_po_bytes(&mut g, true)
            };
            json!(hex(&b))
        }
        _ => json!({"bad": true}),
    }
}

pub fn serve() -> i32 {
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let q: Value = match serde_json::from_str(&line) {
            Ok(q) => q,
            Err(e) => json!({"op": format!("bad request {e}")}),
        };
        let r = match lib(|| handle(&q)) {
            Ok(v) => v,
            Err(p) => json!({"panic": p}),
        };
        writeln!(out, "{r}").ok();
        out.flush().ok();
    }
    0
}
