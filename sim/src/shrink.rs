//! Generic minimiser: works on the JSON form of a plan, keeping any change
//! that still yields the same class of violation.
use serde_json::Value;

#[derive(Clone)]
enum Step {
    Idx(usize),
    Key(String),
}

fn walk(v: &Value, path: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(path.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Step::Idx(i));
                walk(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(Step::Key(k.clone()));
                walk(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut x = v;
    for s in p {
        x = match s {
            Step::Idx(i) => x.get_mut(*i)?,
            Step::Key(k) => x.get_mut(k.as_str())?,
        };
    }
    Some(x)
}

/// `test` says whether a candidate still fails in the same way.
pub fn minimise(start: Value, mut test: impl FnMut(&Value) -> Option<bool>) -> Value {
    let mut cur = start;
    loop {
        let mut improved = false;
        // 1. Remove pieces of arrays, large pieces first, outer arrays first.
        let mut paths = Vec::new();
        walk(&cur, &mut Vec::new(), &mut paths);
        for p in &paths {
            let n = match at(&mut cur.clone(), p) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            let mut size = n;
            while size >= 1 {
                let mut i = 0;
                loop {
                    let len = match at(&mut cur.clone(), p) {
                        Some(Value::Array(a)) => a.len(),
                        _ => 0,
                    };
                    if i >= len {
                        break;
                    }
                    let mut c = cur.clone();
                    if let Some(Value::Array(a)) = at(&mut c, p) {
                        let end = (i + size).min(a.len());
                        a.drain(i..end);
                    }
                    match test(&c) {
                        Some(true) => {
                            cur = c;
                            improved = true;
                        }
                        Some(false) => i += size,
                        None => return cur,
                    }
                }
                size /= 2;
            }
        }
        // 2. Simplify values.
        let mut paths = Vec::new();
        walk(&cur, &mut Vec::new(), &mut paths);
        for p in &paths {
            let v = match at(&mut cur.clone(), p) {
                Some(v) => v.clone(),
                None => continue,
            };
            let mut cands: Vec<Value> = Vec::new();
            match &v {
                Value::Number(n) => {
                    if let Some(i) = n.as_i64() {
                        if i != 0 {
                            cands.push(Value::from(0));
                            if i.unsigned_abs() > 1 {
                                cands.push(Value::from(1));
                                cands.push(Value::from(i / 2));
                                cands.push(Value::from(i - i.signum()));
                            }
                        }
                    }
                }
                Value::Bool(true) => cands.push(Value::Bool(false)),
                _ => {}
            }
            for c in cands {
                let mut t = cur.clone();
                if let Some(x) = at(&mut t, p) {
                    *x = c;
                } else {
                    break;
                }
                match test(&t) {
                    Some(true) => {
                        cur = t;
                        improved = true;
                        break;
                    }
                    Some(false) => {}
                    None => return cur,
                }
            }
        }
        if !improved {
            return cur;
        }
    }
}
