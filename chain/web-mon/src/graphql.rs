//! As much of a GraphQL server as is needed to answer queries from data: what is not asked for is not answered.
use serde_json::{Map, Value as J};
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
enum T {
    Name(String),
    Text(String),
    Num(String),
    P(char),
    Spread,
}
fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() || ch == ',' || ch == '\u{feff}' {
            i += 1
        } else if ch == '#' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if ch.is_ascii_alphabetic() || ch == '_' {
            let s = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1
            }
            out.push(T::Name(c[s..i].iter().collect()))
        } else if ch.is_ascii_digit() || ch == '-' {
            let s = i;
            i += 1;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '.') {
                i += 1
            }
            let t: String = c[s..i].iter().collect();
            t.parse::<f64>().map_err(|_| format!("bad number {t}"))?;
            out.push(T::Num(t))
        } else if ch == '"' {
            if c[i..].starts_with(&['"', '"', '"']) {
                let s = i + 3;
                i = s;
                while !c.get(i..).is_some_and(|r| r.starts_with(&['"', '"', '"'])) {
                    i += 1;
                    if i >= c.len() {
                        return Err("text without end".into());
                    }
                }
                out.push(T::Text(c[s..i].iter().collect()));
                i += 3;
                continue;
            }
            let s = i;
            i += 1;
            while c.get(i) != Some(&'"') {
                if i >= c.len() || c[i] == '\n' {
                    return Err("text without end".into());
                }
                i += if c[i] == '\\' { 2 } else { 1 }
            }
            i += 1;
            let t: String = c[s..i].iter().collect();
            out.push(T::Text(serde_json::from_str(&t).map_err(|_| format!("bad text {t}"))?))
        } else if c[i..].starts_with(&['.', '.', '.']) {
            out.push(T::Spread);
            i += 3
        } else if "{}()[]:$!=@|&".contains(ch) {
            out.push(T::P(ch));
            i += 1
        } else {
            return Err(format!("unexpected character {ch:?}"));
        }
    }
    Ok(out)
}
#[derive(Debug, Clone)]
enum Sel {
    Field { alias: String, name: String, args: Vec<(String, Arg)>, sub: Option<Vec<Sel>> },
    Fragment(String),
    Inline(Vec<Sel>),
}
#[derive(Debug, Clone)]
enum Arg {
    Value(J),
    Enum(String),
    Var(String),
    List(Vec<Arg>),
    Object(Vec<(String, Arg)>),
}
struct P {
    t: Vec<T>,
    i: usize,
}
type R<X> = Result<X, String>;
impl P {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.peek() == Some(&T::P(c));
        self.i += y as usize;
        y
    }
    fn want(&mut self, c: char) -> R<()> {
        match self.eat(c) {
            true => Ok(()),
            false => Err(format!("syntax error: {:?} where {c:?} belongs", self.peek())),
        }
    }
    fn name(&mut self) -> R<String> {
        match self.peek().cloned() {
            Some(T::Name(n)) => {
                self.i += 1;
                Ok(n)
            }
            t => Err(format!("syntax error: {t:?} where a name belongs")),
        }
    }
    fn arg(&mut self) -> R<Arg> {
        let t = self.peek().cloned().ok_or("syntax error at the end")?;
        self.i += 1;
        Ok(match t {
            T::Text(s) => Arg::Value(s.into()),
            T::Num(n) => Arg::Value(serde_json::from_str(&n).map_err(|_| "bad number")?),
            T::Name(n) => match n.as_str() {
                "true" => Arg::Value(true.into()),
                "false" => Arg::Value(false.into()),
                "null" => Arg::Value(J::Null),
                _ => Arg::Enum(n),
            },
            T::P('$') => Arg::Var(self.name()?),
            T::P('[') => {
                let mut l = vec![];
                while !self.eat(']') {
                    l.push(self.arg()?)
                }
                Arg::List(l)
            }
            T::P('{') => {
                let mut l = vec![];
                while !self.eat('}') {
                    let n = self.name()?;
                    self.want(':')?;
                    l.push((n, self.arg()?))
                }
                Arg::Object(l)
            }
            t => return Err(format!("syntax error: {t:?} where a value belongs")),
        })
    }
    fn args(&mut self) -> R<Vec<(String, Arg)>> {
        let mut l = vec![];
        if self.eat('(') {
            while !self.eat(')') {
                let n = self.name()?;
                self.want(':')?;
                l.push((n, self.arg()?))
            }
        }
        Ok(l)
    }
    fn set(&mut self) -> R<Vec<Sel>> {
        self.want('{')?;
        let mut l = vec![];
        while !self.eat('}') {
            if self.peek() == Some(&T::Spread) {
                self.i += 1;
                l.push(match self.peek() {
                    Some(T::P('{')) => Sel::Inline(self.set()?),
                    Some(T::Name(n)) if n == "on" => {
                        self.i += 1;
                        self.name()?;
                        Sel::Inline(self.set()?)
                    }
                    _ => Sel::Fragment(self.name()?),
                });
                continue;
            }
            let alias = self.name()?;
            let name = match self.eat(':') {
                true => self.name()?,
                false => alias.clone(),
            };
            let args = self.args()?;
            let sub = match self.peek() {
                Some(T::P('{')) => Some(self.set()?),
                _ => None,
            };
            l.push(Sel::Field { alias, name, args, sub })
        }
        match l.is_empty() {
            true => Err("syntax error: an empty selection".into()),
            false => Ok(l),
        }
    }
}
/// What a root field with its arguments answers.
pub type Root<'a> = &'a mut dyn FnMut(&str, &HashMap<String, J>) -> R<J>;
struct Ex<'a> {
    fragments: HashMap<String, Vec<Sel>>,
    vars: Map<String, J>,
    known: &'a [&'a str],
}
/// Names of the values of an enumeration are told from texts by this mark.
pub fn constant(n: &str) -> J {
    J::String(format!("\u{1}{n}"))
}
impl Ex<'_> {
    fn value(&self, a: &Arg) -> R<J> {
        Ok(match a {
            Arg::Value(j) => j.clone(),
            Arg::Enum(n) => constant(n),
            Arg::Var(v) => self.vars.get(v).cloned().ok_or(format!("variable {v} has no value"))?,
            Arg::List(l) => l.iter().map(|a| self.value(a)).collect::<R<Vec<_>>>()?.into(),
            Arg::Object(l) => J::Object(l.iter().map(|(n, a)| Ok((n.clone(), self.value(a)?))).collect::<R<_>>()?),
        })
    }
    fn flat(&self, s: &[Sel], depth: usize) -> R<Vec<Sel>> {
        if depth > 20 {
            return Err("fragments without end".into());
        }
        let mut out = vec![];
        for s in s {
            match s {
                Sel::Field { .. } => out.push(s.clone()),
                Sel::Inline(l) => out.extend(self.flat(l, depth + 1)?),
                Sel::Fragment(n) => out.extend(self.flat(self.fragments.get(n).ok_or(format!("no fragment {n}"))?, depth + 1)?),
            }
        }
        Ok(out)
    }
    fn pick(&self, j: &J, s: &[Sel]) -> R<J> {
        match j {
            J::Null => Ok(J::Null),
            J::Array(l) => Ok(l.iter().map(|j| self.pick(j, s)).collect::<R<Vec<_>>>()?.into()),
            J::Object(o) => {
                let mut out = Map::new();
                for f in self.flat(s, 0)? {
                    let Sel::Field { alias, name, args, sub } = f else { unreachable!() };
                    if !args.is_empty() {
                        return Err(format!("{name} takes no arguments"));
                    }
                    let v = match o.get(&name) {
                        Some(v) => v.clone(),
                        None if name == "__typename" => "T".into(),
                        None if self.known.contains(&name.as_str()) => J::Null,
                        None => return Err(format!("Cannot query field {name}")),
                    };
                    let got = self.below(&name, &v, &sub)?;
                    if out.get(&alias).is_some_and(|old| *old != got) {
                        return Err(format!("Fields {alias} conflict"));
                    }
                    out.insert(alias, got);
                }
                Ok(J::Object(out))
            }
            _ => Err("a selection in a plain value".into()),
        }
    }
    fn below(&self, name: &str, v: &J, sub: &Option<Vec<Sel>>) -> R<J> {
        let plain = !v.is_object() && !v.as_array().is_some_and(|a| a.first().is_some_and(J::is_object));
        match sub {
            Some(s) => self.pick(v, s),
            None if plain => Ok(v.clone()),
            None => Err(format!("Field {name} must have a selection of subfields")),
        }
    }
}
/// Answers the body of a request. `known` are fields that exist but have no value here.
pub fn answer(body: &str, known: &[&str], root: Root) -> R<J> {
    answer_to("query", body, known, root)
}
/// The same for an operation of this kind.
pub fn answer_to(kind: &str, body: &str, known: &[&str], root: Root) -> R<J> {
    let body: J = serde_json::from_str(body).map_err(|_| "the request is not JSON")?;
    let query = body["query"].as_str().ok_or("the request has no query")?;
    let mut p = P { t: lex(query)?, i: 0 };
    let mut fragments = HashMap::new();
    let mut operations = vec![];
    while let Some(t) = p.peek().cloned() {
        match t {
            T::P('{') if kind == "query" => operations.push((None, p.set()?, Map::new())),
            T::Name(n) if n == kind => {
                p.i += 1;
                let name = match p.peek() {
                    Some(T::Name(_)) => Some(p.name()?),
                    _ => None,
                };
                let mut defaults = Map::new();
                if p.eat('(') {
                    while !p.eat(')') {
                        p.want('$')?;
                        let n = p.name()?;
                        p.want(':')?;
                        while p.eat('[') {}
                        p.name()?;
                        while p.eat(']') || p.eat('!') {}
                        if p.eat('=') {
                            if let Arg::Value(v) = p.arg()? {
                                defaults.insert(n, v);
                            }
                        }
                    }
                }
                operations.push((name, p.set()?, defaults))
            }
            T::Name(n) if n == "fragment" => {
                p.i += 1;
                let n = p.name()?;
                p.name()?;
                p.name()?;
                fragments.insert(n, p.set()?);
            }
            t => return Err(format!("syntax error at {t:?}")),
        }
    }
    let (_, set, mut vars) = match body["operationName"].as_str() {
        Some(n) => operations.into_iter().find(|o| o.0.as_deref() == Some(n)).ok_or(format!("Unknown operation named {n}"))?,
        None if operations.len() == 1 => operations.pop().unwrap(),
        None => return Err("Must provide operation name".into()),
    };
    if let J::Object(o) = &body["variables"] {
        vars.extend(o.clone())
    }
    let ex = Ex { fragments, vars, known };
    let mut out = Map::new();
    for f in ex.flat(&set, 0)? {
        let Sel::Field { alias, name, args, sub } = f else { unreachable!() };
        let args = args.iter().map(|(n, a)| Ok((n.clone(), ex.value(a)?))).collect::<R<HashMap<_, _>>>()?;
        let v = match name.as_str() {
            "__typename" => "query".into(),
            _ => root(&name, &args)?,
        };
        let got = ex.below(&name, &v, &sub)?;
        if out.get(&alias).is_some_and(|old| *old != got) {
            return Err(format!("Fields {alias} conflict because they have differing arguments"));
        }
        out.insert(alias, got);
    }
    Ok(J::Object(out))
}
