//! The JavaScript client, bundled with a stand-in for umi and run under node.
use serde_json::Value;
use std::{
    io::Write,
    path::PathBuf,
    process::{Command, Stdio},
};

const ESBUILD: &str = "/opt/veriftools/node/node_modules/.bin/esbuild";
const CLIENT: &str = "/repo/clients/js/src/index.ts";

fn dir() -> PathBuf {
    let v = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    PathBuf::from(v)
}

/// answers to the requests, in order; exits with 2 if the client cannot be run at all (not a verdict)
pub fn ask(requests: &[Value]) -> Vec<Value> {
    try_ask(requests).unwrap_or_else(|e| {
        eprintln!("mc20: no verdict on the JavaScript client: {e}");
        std::process::exit(2);
    })
}
fn try_ask(requests: &[Value]) -> Result<Vec<Value>, String> {
    let src = dir().join("mc20/js");
    let tmp = dir().join("target").join(format!("js-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
    let r = (|| {
        let bundle = tmp.join("driver.js");
        let o = Command::new(ESBUILD)
            .arg(src.join("driver.ts"))
            .args(["--bundle", "--platform=node", "--log-level=error"])
            .arg(format!("--alias:client={CLIENT}"))
            .arg(format!("--alias:@metaplex-foundation/umi/serializers={}", src.join("serializers.ts").display()))
            .arg(format!("--alias:@metaplex-foundation/umi={}", src.join("umi.ts").display()))
            .arg(format!("--outfile={}", bundle.display()))
            .stdin(Stdio::null())
            .output()
            .map_err(|e| format!("esbuild: {e}"))?;
        if !o.status.success() {
            return Err(format!("the JS client does not bundle: {}", String::from_utf8_lossy(&o.stderr)));
        }
        let (q, a) = (tmp.join("in"), tmp.join("out"));
        let mut f = std::io::BufWriter::new(std::fs::File::create(&q).map_err(|e| e.to_string())?);
        for r in requests {
            writeln!(f, "{r}").map_err(|e| e.to_string())?;
        }
        f.into_inner().map_err(|e| e.to_string())?;
        let o = Command::new("node").arg(&bundle).arg(&q).arg(&a).stdin(Stdio::null()).output().map_err(|e| format!("node: {e}"))?;
        if !o.status.success() {
            return Err(format!("node failed: {}", String::from_utf8_lossy(&o.stderr)));
        }
        let t = std::fs::read_to_string(&a).map_err(|e| e.to_string())?;
        let v: Vec<Value> = t.lines().map(|l| serde_json::from_str(l).unwrap_or(Value::Null)).collect();
        if v.len() != requests.len() {
            return Err(format!("{} answers to {} requests", v.len(), requests.len()));
        }
        Ok(v)
    })();
    let _ = std::fs::remove_dir_all(&tmp);
    r
}
