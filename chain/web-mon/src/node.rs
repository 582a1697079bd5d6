//! A process of Node that runs the real JavaScript; what it fetches is asked of the caller.
use serde_json::{json, Value as J};
use std::io::{BufRead, BufReader, Write};
use std::process::*;
use wasm_bindgen::JsValue;

#[derive(Debug, Clone)]
pub struct Request {
    pub url: String,
    pub method: String,
    pub kind: Option<String>,
    pub body: String,
}
#[derive(Debug, Clone)]
pub enum Reply {
    Lost(&'static str),
    Body(u16, &'static str, String),
}
pub struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    calls: u64,
}
fn broken(what: &str) -> ! {
    eprintln!("HARNESS-ERROR: node {what}");
    exit(2)
}
impl Node {
    pub fn start() -> Self {
        let mut c = match Command::new("node").arg("-e").arg(include_str!("driver.js")).env_remove("NODE_OPTIONS").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(e) => broken(&format!("does not start: {e}")),
        };
        Node { to: c.stdin.take().unwrap(), from: BufReader::new(c.stdout.take().unwrap()), child: c, calls: 0 }
    }
    fn send(&mut self, j: J) {
        if writeln!(self.to, "{j}").and_then(|_| self.to.flush()).is_err() {
            broken("went away")
        }
    }
    /// Runs a function to its end.
    pub fn call(&mut self, module: &str, name: &str, args: &[JsValue], net: &mut dyn FnMut(Request) -> Reply) -> Result<JsValue, JsValue> {
        fn arg(v: &JsValue) -> J {
            match v {
                JsValue::Undefined | JsValue::Null => J::Null,
                JsValue::Bool(b) => json!(b),
                JsValue::Num(n) if n.fract() == 0. && n.abs() < 9e15 => json!(*n as i64),
                JsValue::Num(n) => json!({"$num": n.to_string().replace("inf", "Infinity")}),
                JsValue::Big(n) => json!({"$big": n}),
                JsValue::Str(s) => json!(s),
                JsValue::List(l) => l.iter().map(arg).collect(),
                JsValue::Other(_) | JsValue::Object(_) => broken("was given an object"),
            }
        }
        self.calls += 1;
        let id = self.calls;
        self.send(json!({"call": id, "module": module, "name": name, "args": args.iter().map(arg).collect::<Vec<_>>()}));
        loop {
            let mut line = String::new();
            if !matches!(self.from.read_line(&mut line), Ok(1..)) {
                mon::violation(&format!("the JavaScript of {module} ended the process in {name}"))
            }
            let m: J = match serde_json::from_str(&line) {
                Ok(m) => m,
                Err(_) => continue,
            };
            if let Some(f) = m.get("fetch") {
                let text = |k: &str| m[k].as_str().unwrap_or_default().to_string();
                let r = net(Request { url: text("url"), method: text("method"), kind: m["type"].as_str().map(Into::into), body: text("body") });
                self.send(match r {
                    Reply::Lost(why) => json!({"reply": f, "fail": why}),
                    Reply::Body(status, kind, body) => json!({"reply": f, "status": status, "type": kind, "body": body}),
                });
                continue;
            }
            if m["done"] != json!(id) {
                continue;
            }
            let described = |e: &J| match e["str"].as_str() {
                Some(s) => JsValue::Str(s.into()),
                None => JsValue::Other(e["other"].as_str().unwrap_or_default().into()),
            };
            return match m.get("ok") {
                None => Err(described(&m["err"])),
                Some(v) => Ok(match v.get("plain") {
                    Some(J::String(s)) => JsValue::Str(s.clone()),
                    Some(J::Number(n)) => JsValue::Num(n.as_f64().unwrap()),
                    Some(J::Bool(b)) => JsValue::Bool(*b),
                    Some(_) => JsValue::Null,
                    None if v.get("undef").is_some() => JsValue::Undefined,
                    None => described(v),
                }),
            };
        }
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
