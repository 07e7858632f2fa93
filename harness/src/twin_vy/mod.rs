//! C24: the text printed for a Vyper tree, against the executable twin of the spelling specification.
#[allow(unused_variables, dead_code)]
mod gen;
mod rt;
use crate::pp::Page;
use crate::util::*;
use mutagenyx_lib::pretty_printer::*;
use mutagenyx_lib::{Language, LanguageInterface, SuperAST};
use rand::Rng;
use rt::*;
use serde_json::{json, Value};

const KINDS: &str = "
Name id:n
VariableDecl target:V annotation:T is_public:b is_constant:b is_immutable:b value:?E
Subscript value:E slice:I
Index value:E
Tuple elements:*E
FunctionDef decorator_list:*D name:n args:G returns:?T doc_string:?C body:+S
arguments args:*H defaults:*E
arg arg:n annotation:?T
Assign target:E value:E
Attribute value:E attr:n
AugAssign target:E op:O value:E
Int value:i
Decimal value:d
Hex value:x
BinOp left:E op:O right:E
Compare left:E op:Q right:E
BoolOp op:B values:2E
And
Or
Assert test:E msg:?E
Str value:s
DocStr value:t
Module doc_string:?C body:*M
AnnAssign target:V annotation:T value:?E
Expr value:E
Call func:E args:*E keywords:*K
keyword arg:n value:E
NameConstant value:?b
UnaryOp op:U operand:E
InterfaceDef name:n body:+F
StructDef name:n body:+R
For target:V iter:E body:+S
List elements:*E
If test:E body:+S orelse:*S
Break
Continue
Pass
Return value:?E
Raise exc:E
Import name:n alias:?n
ImportFrom module:?n name:n alias:?n
EventDef name:n body:+R
EnumDef name:n body:+X
Log value:?E
Comment value:t
Comment.2 value:W
Bytes value:h
Dict keys:*E values:*E
Add
Sub
Mult
Div
FloorDiv
Mod
Pow
LShift
RShift
BitAnd
BitOr
BitXor
Eq
NotEq
Lt
LtE
Gt
GtE
In
NotIn
Not
Invert
USub
";
const CATS: &str = "
E Name Int Str NameConstant Decimal Hex Bytes Attribute Subscript Tuple BinOp Compare BoolOp Call UnaryOp List Dict BinOp Compare BoolOp UnaryOp
T Name Subscript Tuple
I Index
D Name Call
G arguments
H arg
C DocStr
S Pass Break Continue Assign AugAssign Assert AnnAssign Expr For If Return Raise Log Comment Comment.2
O Add Sub Mult Div FloorDiv Mod Pow LShift RShift BitAnd BitOr BitXor
Q Eq NotEq Lt LtE Gt GtE In NotIn
B And Or
U Not Invert USub
M VariableDecl Import FunctionDef InterfaceDef StructDef ImportFrom EventDef EnumDef Comment AnnAssign
F FunctionDef
R AnnAssign
X Expr
K keyword
V Name
W Name Comment Assign Expr
";

/// The compiler's promises the printers rely on: no more defaults than arguments, a value for each key.
fn tidy(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(tidy),
        Value::Object(o) => {
            for (a, b) in [("defaults", "args"), ("values", "keys")] {
                let n = o.get(b).and_then(|x| x.as_array()).map(|x| x.len());
                if let (Some(n), Some(Value::Array(d))) = (n, o.get_mut(a)) {
                    if a == "values" {
                        while d.len() < n {
                            d.push(json!({"ast_type": "Int", "value": 1}));
                        }
                    }
                    d.truncate(n);
                }
            }
            o.values_mut().for_each(tidy)
        }
        _ => {}
    }
}

fn real(n: &Value, page: usize, ind: usize) -> (String, usize, usize) {
    let mut o = LanguageInterface::get_language_object_for_language(&Language::Vyper).unwrap();
    let mut p = PrettyPrinter::new(4, page);
    for _ in 0..ind {
        p.increase_indent();
    }
    let mut b: Vec<u8> = vec![];
    o.pretty_print_ast_to_stream(&SuperAST::Vyper(n.clone()), &mut b, &mut p).unwrap();
    (String::from_utf8_lossy(&b).into_owned(), p.column, p.indent)
}
fn ink(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != '#').collect()
}

/// a random tree that leaves out nothing the compiler would write
pub fn tree(r: &mut rand_pcg::Pcg64, d: u32) -> Value {
    let mut sc = crate::schema::Schema::new("ast_type", KINDS, CATS);
    sc.gaps = false;
    let mut t = sc.kind(r, "Module", d);
    tidy(&mut t);
    t
}

pub fn run(cx: &mut Cx) {
    if !cx.wants(&["C24"]) {
        return;
    }
    let sc = crate::schema::Schema::new("ast_type", KINDS, CATS);
    let n = if cx.thorough { 60_000 } else { 12_000 };
    for it in 0..n {
        let k = if it % 3 == 0 { "Module" } else { sc.kinds[cx.rng.gen_range(0, sc.kinds.len())].0 };
        let d = 1 + (it % 4) as u32;
        let mut t = sc.kind(&mut cx.rng, k, d);
        tidy(&mut t);
        let c = Cfg { paren: false, decl: false };
        let page = *[1_000_000usize, 1_000_000, 150, 100, 60][..].get(cx.rng.gen_range(0, 5)).unwrap();
        let ind = if page > 1000 { cx.rng.gen_range(0, 3) } else { 0 };
        let input = json!({"language": "vyper", "tree": t, "page": page, "indent": ind});
        cx.case(&format!("spelling {}", k), &input);
        let got = match cx.guarded("C24", "spelling", &input, || real(&t, page, ind)) {
            Ok(x) => x,
            Err(e) => {
                cx.fail("C24", "spelling", &format!("printing fails: {}", e), input);
                continue;
            }
        };
        let mut g = Page::new(4, page);
        g.inc(ind);
        let w = pr(St(g), JV(&t), c).0;
        let ok = if page > 1000 { got.0 == w.out && got.1 == w.col && got.2 == w.ind } else { ink(&got.0) == ink(&w.out) };
        if !ok {
            cx.fail("C24", "spelling", &format!("printed {:?}, the tree spells {:?}", got.0, w.out), input);
        }
    }
}
