// written by tools/gen_der.py
use super::*;

#[derive(knuffel::DecodeScalar)]
pub enum Two { First, SecondOne }
impl Show for Two { fn txt(&self) -> String { match self { Two::First => "First".into(), Two::SecondOne => "SecondOne".into(), } } }
impl Two { pub const NAMES: &'static [(&'static str, &'static str)] = &[("first", "First"), ("second-one", "SecondOne")]; }
#[derive(knuffel::DecodeScalar)]
pub enum Four { Alpha, BetaGamma, r#Type, HTTPServer }
impl Show for Four { fn txt(&self) -> String { match self { Four::Alpha => "Alpha".into(), Four::BetaGamma => "BetaGamma".into(), Four::r#Type => "Type".into(), Four::HTTPServer => "HTTPServer".into(), } } }
impl Four { pub const NAMES: &'static [(&'static str, &'static str)] = &[("alpha", "Alpha"), ("beta-gamma", "BetaGamma"), ("type", "Type"), ("http-server", "HTTPServer")]; }
#[derive(knuffel::DecodeScalar)]
pub enum One { Only }
impl Show for One { fn txt(&self) -> String { match self { One::Only => "Only".into(), } } }
impl One { pub const NAMES: &'static [(&'static str, &'static str)] = &[("only", "Only")]; }
#[derive(knuffel::Decode)]
pub struct P0 {
    #[knuffel(argument)] v: i32,
}
impl Show for P0 { fn txt(&self) -> String { let mut s = String::from("P0{ "); s.push_str("v="); s.push_str(&self.v.txt()); s.push(' '); s.push('}'); s } }
impl P0 { pub fn schema() -> Schema { Schema::Struct { name: "P0", fields: vec![Fld { id: "v", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct P1 {
    #[knuffel(argument)] v: Option<String>,
    #[knuffel(property)] q: Option<u8>,
}
impl Show for P1 { fn txt(&self) -> String { let mut s = String::from("P1{ "); s.push_str("v="); s.push_str(&self.v.txt()); s.push(' ');s.push_str("q="); s.push_str(&self.q.txt()); s.push(' '); s.push('}'); s } }
impl P1 { pub fn schema() -> Schema { Schema::Struct { name: "P1", fields: vec![Fld { id: "v", indexed: false, role: Role::Arg, opt: true, dflt: None, dec: Dec::Scalar(<Option<String> as Sc>::expect) }, Fld { id: "q", indexed: false, role: Role::Prop("q"), opt: true, dflt: None, dec: Dec::Scalar(<Option<u8> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct P2 {
    #[knuffel(arguments)] v: Vec<i64>,
    #[knuffel(child)] inner: Option<P0>,
}
impl Show for P2 { fn txt(&self) -> String { let mut s = String::from("P2{ "); s.push_str("v="); s.push_str(&self.v.txt()); s.push(' ');s.push_str("inner="); s.push_str(&self.inner.txt()); s.push(' '); s.push('}'); s } }
impl P2 { pub fn schema() -> Schema { Schema::Struct { name: "P2", fields: vec![Fld { id: "v", indexed: false, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Scalar(<i64 as Sc>::expect) }, Fld { id: "inner", indexed: false, role: Role::Child("inner"), opt: true, dflt: None, dec: Dec::Node(P0::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct Unit0;
impl Show for Unit0 { fn txt(&self) -> String { let mut s = String::from("Unit0{ ");  s.push('}'); s } }
impl Unit0 { pub fn schema() -> Schema { Schema::Struct { name: "Unit0", fields: vec![] } } }
#[derive(knuffel::Decode)]
pub struct Empty0 {
}
impl Show for Empty0 { fn txt(&self) -> String { let mut s = String::from("Empty0{ ");  s.push('}'); s } }
impl Empty0 { pub fn schema() -> Schema { Schema::Struct { name: "Empty0", fields: vec![] } } }
#[derive(knuffel::Decode)]
pub struct A1 {
    #[knuffel(argument)] first: i32,
    #[knuffel(argument)] second: Option<String>,
}
impl Show for A1 { fn txt(&self) -> String { let mut s = String::from("A1{ "); s.push_str("first="); s.push_str(&self.first.txt()); s.push(' ');s.push_str("second="); s.push_str(&self.second.txt()); s.push(' '); s.push('}'); s } }
impl A1 { pub fn schema() -> Schema { Schema::Struct { name: "A1", fields: vec![Fld { id: "first", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "second", indexed: false, role: Role::Arg, opt: true, dflt: None, dec: Dec::Scalar(<Option<String> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct A2 {
    #[knuffel(argument)] a: String,
    #[knuffel(argument)] b: u8,
    #[knuffel(argument)] c: Option<bool>,
    #[knuffel(arguments)] rest: Vec<i16>,
}
impl Show for A2 { fn txt(&self) -> String { let mut s = String::from("A2{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.b.txt()); s.push(' ');s.push_str("c="); s.push_str(&self.c.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl A2 { pub fn schema() -> Schema { Schema::Struct { name: "A2", fields: vec![Fld { id: "a", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<String as Sc>::expect) }, Fld { id: "b", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<u8 as Sc>::expect) }, Fld { id: "c", indexed: false, role: Role::Arg, opt: true, dflt: None, dec: Dec::Scalar(<Option<bool> as Sc>::expect) }, Fld { id: "rest", indexed: false, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Scalar(<i16 as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct A3 {
    #[knuffel(argument, default)] a: i64,
    #[knuffel(argument, default=42)] b: i64,
    #[knuffel(argument, default=Some(7))] c: Option<i64>,
}
impl Show for A3 { fn txt(&self) -> String { let mut s = String::from("A3{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.b.txt()); s.push(' ');s.push_str("c="); s.push_str(&self.c.txt()); s.push(' '); s.push('}'); s } }
impl A3 { pub fn schema() -> Schema { Schema::Struct { name: "A3", fields: vec![Fld { id: "a", indexed: false, role: Role::Arg, opt: false, dflt: Some({ let d: i64 = Default::default(); d.txt() }), dec: Dec::Scalar(<i64 as Sc>::expect) }, Fld { id: "b", indexed: false, role: Role::Arg, opt: false, dflt: Some({ let d: i64 = 42; d.txt() }), dec: Dec::Scalar(<i64 as Sc>::expect) }, Fld { id: "c", indexed: false, role: Role::Arg, opt: true, dflt: Some({ let d: Option<i64> = Some(7); d.txt() }), dec: Dec::Scalar(<Option<i64> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct A4 {
    #[knuffel(argument, str)] a: i32,
    #[knuffel(argument, str)] b: Option<i32>,
    #[knuffel(argument, bytes)] c: Vec<u8>,
    #[knuffel(argument, bytes)] d: Option<Even>,
}
impl Show for A4 { fn txt(&self) -> String { let mut s = String::from("A4{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.b.txt()); s.push(' ');s.push_str("c="); s.push_str(&self.c.txt()); s.push(' ');s.push_str("d="); s.push_str(&self.d.txt()); s.push(' '); s.push('}'); s } }
impl A4 { pub fn schema() -> Schema { Schema::Struct { name: "A4", fields: vec![Fld { id: "a", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }, Fld { id: "b", indexed: false, role: Role::Arg, opt: true, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }, Fld { id: "c", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Bytes(|b| <Vec<u8> as TryFrom<Vec<u8>>>::try_from(b).map(|x| x.txt()).ok()) }, Fld { id: "d", indexed: false, role: Role::Arg, opt: true, dflt: None, dec: Dec::Bytes(|b| <Even as TryFrom<Vec<u8>>>::try_from(b).map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
pub struct A5 {
    #[knuffel(argument, bytes)] a: Even,
    #[knuffel(arguments, bytes)] rest: Vec<Even>,
}
impl Show for A5 { fn txt(&self) -> String { let mut s = String::from("A5{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl A5 { pub fn schema() -> Schema { Schema::Struct { name: "A5", fields: vec![Fld { id: "a", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Bytes(|b| <Even as TryFrom<Vec<u8>>>::try_from(b).map(|x| x.txt()).ok()) }, Fld { id: "rest", indexed: false, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Bytes(|b| <Even as TryFrom<Vec<u8>>>::try_from(b).map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
pub struct A6 {
    #[knuffel(arguments, str)] rest: Vec<u16>,
}
impl Show for A6 { fn txt(&self) -> String { let mut s = String::from("A6{ "); s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl A6 { pub fn schema() -> Schema { Schema::Struct { name: "A6", fields: vec![Fld { id: "rest", indexed: false, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<u16>().map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
pub struct A7 {
    #[knuffel(arguments)] rest: BTreeSet<String>,
}
impl Show for A7 { fn txt(&self) -> String { let mut s = String::from("A7{ "); s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl A7 { pub fn schema() -> Schema { Schema::Struct { name: "A7", fields: vec![Fld { id: "rest", indexed: false, role: Role::Args(true), opt: false, dflt: None, dec: Dec::Scalar(<String as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct A8 {
    #[knuffel(argument)] t: Two,
    #[knuffel(argument)] u: Option<Four>,
    #[knuffel(arguments)] rest: Vec<Four>,
}
impl Show for A8 { fn txt(&self) -> String { let mut s = String::from("A8{ "); s.push_str("t="); s.push_str(&self.t.txt()); s.push(' ');s.push_str("u="); s.push_str(&self.u.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl A8 { pub fn schema() -> Schema { Schema::Struct { name: "A8", fields: vec![Fld { id: "t", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::ScalarEnum(Two::NAMES, false) }, Fld { id: "u", indexed: false, role: Role::Arg, opt: true, dflt: None, dec: Dec::ScalarEnum(Four::NAMES, true) }, Fld { id: "rest", indexed: false, role: Role::Args(false), opt: false, dflt: None, dec: Dec::ScalarEnum(Four::NAMES, false) }] } } }
#[derive(knuffel::Decode)]
pub struct A9(#[knuffel(argument)] f64, #[knuffel(argument)] bool, #[knuffel(argument)] Option<Option<i8>>);
impl Show for A9 { fn txt(&self) -> String { let mut s = String::from("A9{ "); s.push_str("x="); s.push_str(&self.0.txt()); s.push(' ');s.push_str("y="); s.push_str(&self.1.txt()); s.push(' ');s.push_str("z="); s.push_str(&self.2.txt()); s.push(' '); s.push('}'); s } }
impl A9 { pub fn schema() -> Schema { Schema::Struct { name: "A9", fields: vec![Fld { id: "x", indexed: true, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<f64 as Sc>::expect) }, Fld { id: "y", indexed: true, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<bool as Sc>::expect) }, Fld { id: "z", indexed: true, role: Role::Arg, opt: true, dflt: None, dec: Dec::Scalar(<Option<Option<i8>> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct A10(#[knuffel(argument)] i32, #[knuffel(argument)] Option<String>, #[knuffel(arguments)] Vec<String>);
impl Show for A10 { fn txt(&self) -> String { let mut s = String::from("A10{ "); s.push_str("a="); s.push_str(&self.0.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.1.txt()); s.push(' ');s.push_str("c="); s.push_str(&self.2.txt()); s.push(' '); s.push('}'); s } }
impl A10 { pub fn schema() -> Schema { Schema::Struct { name: "A10", fields: vec![Fld { id: "a", indexed: true, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "b", indexed: true, role: Role::Arg, opt: true, dflt: None, dec: Dec::Scalar(<Option<String> as Sc>::expect) }, Fld { id: "c", indexed: true, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Scalar(<String as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct A11 {
    #[knuffel(argument, str, default=7)] a: u64,
    #[knuffel(argument, str, default=Some(9))] b: Option<u64>,
    #[knuffel(argument, bytes, default)] c: Vec<u8>,
}
impl Show for A11 { fn txt(&self) -> String { let mut s = String::from("A11{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.b.txt()); s.push(' ');s.push_str("c="); s.push_str(&self.c.txt()); s.push(' '); s.push('}'); s } }
impl A11 { pub fn schema() -> Schema { Schema::Struct { name: "A11", fields: vec![Fld { id: "a", indexed: false, role: Role::Arg, opt: false, dflt: Some({ let d: u64 = 7; d.txt() }), dec: Dec::Str(|s| s.parse::<u64>().map(|x| x.txt()).ok()) }, Fld { id: "b", indexed: false, role: Role::Arg, opt: true, dflt: Some({ let d: Option<u64> = Some(9); d.txt() }), dec: Dec::Str(|s| s.parse::<u64>().map(|x| x.txt()).ok()) }, Fld { id: "c", indexed: false, role: Role::Arg, opt: false, dflt: Some({ let d: Vec<u8> = Default::default(); d.txt() }), dec: Dec::Bytes(|b| <Vec<u8> as TryFrom<Vec<u8>>>::try_from(b).map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
pub struct A12 {
    #[knuffel(arguments)] rest: Vec<Option<u8>>,
}
impl Show for A12 { fn txt(&self) -> String { let mut s = String::from("A12{ "); s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl A12 { pub fn schema() -> Schema { Schema::Struct { name: "A12", fields: vec![Fld { id: "rest", indexed: false, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Scalar(<Option<u8> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct B1 {
    #[knuffel(property)] name: String,
    #[knuffel(property)] count: Option<u8>,
    #[knuffel(property, default)] long_name: bool,
}
impl Show for B1 { fn txt(&self) -> String { let mut s = String::from("B1{ "); s.push_str("name="); s.push_str(&self.name.txt()); s.push(' ');s.push_str("count="); s.push_str(&self.count.txt()); s.push(' ');s.push_str("long_name="); s.push_str(&self.long_name.txt()); s.push(' '); s.push('}'); s } }
impl B1 { pub fn schema() -> Schema { Schema::Struct { name: "B1", fields: vec![Fld { id: "name", indexed: false, role: Role::Prop("name"), opt: false, dflt: None, dec: Dec::Scalar(<String as Sc>::expect) }, Fld { id: "count", indexed: false, role: Role::Prop("count"), opt: true, dflt: None, dec: Dec::Scalar(<Option<u8> as Sc>::expect) }, Fld { id: "long_name", indexed: false, role: Role::Prop("long-name"), opt: false, dflt: Some({ let d: bool = Default::default(); d.txt() }), dec: Dec::Scalar(<bool as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct B2 {
    #[knuffel(property(name="b"))] a: i32,
    #[knuffel(property(name="a"))] b: i32,
    #[knuffel(property)] r#type: Option<String>,
}
impl Show for B2 { fn txt(&self) -> String { let mut s = String::from("B2{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.b.txt()); s.push(' ');s.push_str("type="); s.push_str(&self.r#type.txt()); s.push(' '); s.push('}'); s } }
impl B2 { pub fn schema() -> Schema { Schema::Struct { name: "B2", fields: vec![Fld { id: "a", indexed: false, role: Role::Prop("b"), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "b", indexed: false, role: Role::Prop("a"), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "type", indexed: false, role: Role::Prop("type"), opt: true, dflt: None, dec: Dec::Scalar(<Option<String> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct B3 {
    #[knuffel(property, default=-5)] x: i64,
    #[knuffel(property, default=Some(6))] y: Option<i64>,
    #[knuffel(property, default)] z: Option<i64>,
}
impl Show for B3 { fn txt(&self) -> String { let mut s = String::from("B3{ "); s.push_str("x="); s.push_str(&self.x.txt()); s.push(' ');s.push_str("y="); s.push_str(&self.y.txt()); s.push(' ');s.push_str("z="); s.push_str(&self.z.txt()); s.push(' '); s.push('}'); s } }
impl B3 { pub fn schema() -> Schema { Schema::Struct { name: "B3", fields: vec![Fld { id: "x", indexed: false, role: Role::Prop("x"), opt: false, dflt: Some({ let d: i64 = -5; d.txt() }), dec: Dec::Scalar(<i64 as Sc>::expect) }, Fld { id: "y", indexed: false, role: Role::Prop("y"), opt: true, dflt: Some({ let d: Option<i64> = Some(6); d.txt() }), dec: Dec::Scalar(<Option<i64> as Sc>::expect) }, Fld { id: "z", indexed: false, role: Role::Prop("z"), opt: true, dflt: Some({ let d: Option<i64> = Default::default(); d.txt() }), dec: Dec::Scalar(<Option<i64> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct B4 {
    #[knuffel(property)] known: Option<i32>,
    #[knuffel(properties)] rest: BTreeMap<String, i32>,
}
impl Show for B4 { fn txt(&self) -> String { let mut s = String::from("B4{ "); s.push_str("known="); s.push_str(&self.known.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl B4 { pub fn schema() -> Schema { Schema::Struct { name: "B4", fields: vec![Fld { id: "known", indexed: false, role: Role::Prop("known"), opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }, Fld { id: "rest", indexed: false, role: Role::Props(|s| s.parse::<String>().map(|x| x.txt()).ok(), true), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct B5 {
    #[knuffel(properties)] rest: BTreeMap<i32, String>,
}
impl Show for B5 { fn txt(&self) -> String { let mut s = String::from("B5{ "); s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl B5 { pub fn schema() -> Schema { Schema::Struct { name: "B5", fields: vec![Fld { id: "rest", indexed: false, role: Role::Props(|s| s.parse::<i32>().map(|x| x.txt()).ok(), true), opt: false, dflt: None, dec: Dec::Scalar(<String as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct B6 {
    #[knuffel(property, str)] s: i32,
    #[knuffel(property, str)] t: Option<i32>,
    #[knuffel(property, bytes)] u: Even,
    #[knuffel(property, bytes)] v: Option<Vec<u8>>,
}
impl Show for B6 { fn txt(&self) -> String { let mut s = String::from("B6{ "); s.push_str("s="); s.push_str(&self.s.txt()); s.push(' ');s.push_str("t="); s.push_str(&self.t.txt()); s.push(' ');s.push_str("u="); s.push_str(&self.u.txt()); s.push(' ');s.push_str("v="); s.push_str(&self.v.txt()); s.push(' '); s.push('}'); s } }
impl B6 { pub fn schema() -> Schema { Schema::Struct { name: "B6", fields: vec![Fld { id: "s", indexed: false, role: Role::Prop("s"), opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }, Fld { id: "t", indexed: false, role: Role::Prop("t"), opt: true, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }, Fld { id: "u", indexed: false, role: Role::Prop("u"), opt: false, dflt: None, dec: Dec::Bytes(|b| <Even as TryFrom<Vec<u8>>>::try_from(b).map(|x| x.txt()).ok()) }, Fld { id: "v", indexed: false, role: Role::Prop("v"), opt: true, dflt: None, dec: Dec::Bytes(|b| <Vec<u8> as TryFrom<Vec<u8>>>::try_from(b).map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
pub struct B7(#[knuffel(argument)] i32, #[knuffel(property(name="the prop"))] i32, #[knuffel(property(name=""))] Option<i32>);
impl Show for B7 { fn txt(&self) -> String { let mut s = String::from("B7{ "); s.push_str("a="); s.push_str(&self.0.txt()); s.push(' ');s.push_str("p="); s.push_str(&self.1.txt()); s.push(' ');s.push_str("q="); s.push_str(&self.2.txt()); s.push(' '); s.push('}'); s } }
impl B7 { pub fn schema() -> Schema { Schema::Struct { name: "B7", fields: vec![Fld { id: "a", indexed: true, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "p", indexed: true, role: Role::Prop("the prop"), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "q", indexed: true, role: Role::Prop(""), opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct B8 {
    #[knuffel(property)] e: Two,
    #[knuffel(property)] g: Option<Four>,
    #[knuffel(properties)] rest: Vec<(String, Two)>,
}
impl Show for B8 { fn txt(&self) -> String { let mut s = String::from("B8{ "); s.push_str("e="); s.push_str(&self.e.txt()); s.push(' ');s.push_str("g="); s.push_str(&self.g.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl B8 { pub fn schema() -> Schema { Schema::Struct { name: "B8", fields: vec![Fld { id: "e", indexed: false, role: Role::Prop("e"), opt: false, dflt: None, dec: Dec::ScalarEnum(Two::NAMES, false) }, Fld { id: "g", indexed: false, role: Role::Prop("g"), opt: true, dflt: None, dec: Dec::ScalarEnum(Four::NAMES, true) }, Fld { id: "rest", indexed: false, role: Role::Props(|s| s.parse::<String>().map(|x| x.txt()).ok(), false), opt: false, dflt: None, dec: Dec::ScalarEnum(Two::NAMES, false) }] } } }
#[derive(knuffel::Decode)]
pub struct B9 {
    #[knuffel(property, str, default=Some(3))] s: Option<i32>,
    #[knuffel(property, str, default=4)] t: i32,
    #[knuffel(properties, str)] rest: BTreeMap<String, i32>,
}
impl Show for B9 { fn txt(&self) -> String { let mut s = String::from("B9{ "); s.push_str("s="); s.push_str(&self.s.txt()); s.push(' ');s.push_str("t="); s.push_str(&self.t.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl B9 { pub fn schema() -> Schema { Schema::Struct { name: "B9", fields: vec![Fld { id: "s", indexed: false, role: Role::Prop("s"), opt: true, dflt: Some({ let d: Option<i32> = Some(3); d.txt() }), dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }, Fld { id: "t", indexed: false, role: Role::Prop("t"), opt: false, dflt: Some({ let d: i32 = 4; d.txt() }), dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }, Fld { id: "rest", indexed: false, role: Role::Props(|s| s.parse::<String>().map(|x| x.txt()).ok(), true), opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
pub struct B10 {
    #[knuffel(argument)] a: Option<i32>,
    #[knuffel(arguments)] rest: Vec<i32>,
    #[knuffel(property)] p: Option<i32>,
    #[knuffel(properties)] others: BTreeMap<String, Option<String>>,
}
impl Show for B10 { fn txt(&self) -> String { let mut s = String::from("B10{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' ');s.push_str("p="); s.push_str(&self.p.txt()); s.push(' ');s.push_str("others="); s.push_str(&self.others.txt()); s.push(' '); s.push('}'); s } }
impl B10 { pub fn schema() -> Schema { Schema::Struct { name: "B10", fields: vec![Fld { id: "a", indexed: false, role: Role::Arg, opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }, Fld { id: "rest", indexed: false, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "p", indexed: false, role: Role::Prop("p"), opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }, Fld { id: "others", indexed: false, role: Role::Props(|s| s.parse::<String>().map(|x| x.txt()).ok(), true), opt: false, dflt: None, dec: Dec::Scalar(<Option<String> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct B11(#[knuffel(properties)] Vec<(String, bool)>);
impl Show for B11 { fn txt(&self) -> String { let mut s = String::from("B11{ "); s.push_str("all="); s.push_str(&self.0.txt()); s.push(' '); s.push('}'); s } }
impl B11 { pub fn schema() -> Schema { Schema::Struct { name: "B11", fields: vec![Fld { id: "all", indexed: true, role: Role::Props(|s| s.parse::<String>().map(|x| x.txt()).ok(), false), opt: false, dflt: None, dec: Dec::Scalar(<bool as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct B12 {
    #[knuffel(properties, bytes)] rest: BTreeMap<String, Vec<u8>>,
}
impl Show for B12 { fn txt(&self) -> String { let mut s = String::from("B12{ "); s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl B12 { pub fn schema() -> Schema { Schema::Struct { name: "B12", fields: vec![Fld { id: "rest", indexed: false, role: Role::Props(|s| s.parse::<String>().map(|x| x.txt()).ok(), true), opt: false, dflt: None, dec: Dec::Bytes(|b| <Vec<u8> as TryFrom<Vec<u8>>>::try_from(b).map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
pub struct C1 {
    #[knuffel(child)] one: P0,
    #[knuffel(child)] two: Option<P1>,
    #[knuffel(child)] flag: bool,
}
impl Show for C1 { fn txt(&self) -> String { let mut s = String::from("C1{ "); s.push_str("one="); s.push_str(&self.one.txt()); s.push(' ');s.push_str("two="); s.push_str(&self.two.txt()); s.push(' ');s.push_str("flag="); s.push_str(&self.flag.txt()); s.push(' '); s.push('}'); s } }
impl C1 { pub fn schema() -> Schema { Schema::Struct { name: "C1", fields: vec![Fld { id: "one", indexed: false, role: Role::Child("one"), opt: false, dflt: None, dec: Dec::Node(P0::schema) }, Fld { id: "two", indexed: false, role: Role::Child("two"), opt: true, dflt: None, dec: Dec::Node(P1::schema) }, Fld { id: "flag", indexed: false, role: Role::Flag("flag"), opt: false, dflt: None, dec: Dec::Nothing }] } } }
#[derive(knuffel::Decode)]
pub struct C2 {
    #[knuffel(children(name="item"))] items: Vec<P0>,
    #[knuffel(children)] rest: Vec<P1>,
}
impl Show for C2 { fn txt(&self) -> String { let mut s = String::from("C2{ "); s.push_str("items="); s.push_str(&self.items.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl C2 { pub fn schema() -> Schema { Schema::Struct { name: "C2", fields: vec![Fld { id: "items", indexed: false, role: Role::Multi("item"), opt: false, dflt: None, dec: Dec::Node(P0::schema) }, Fld { id: "rest", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Node(P1::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct C3 {
    #[knuffel(children)] all: Vec<E1>,
}
impl Show for C3 { fn txt(&self) -> String { let mut s = String::from("C3{ "); s.push_str("all="); s.push_str(&self.all.txt()); s.push(' '); s.push('}'); s } }
impl C3 { pub fn schema() -> Schema { Schema::Struct { name: "C3", fields: vec![Fld { id: "all", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Node(E1::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct C4 {
    #[knuffel(children(name="a"))] a: Option<Vec<P0>>,
    #[knuffel(children(name="b-b"), default=vec![])] b: Vec<P0>,
    #[knuffel(child, default=P0 { v: 77 })] c: P0,
}
impl Show for C4 { fn txt(&self) -> String { let mut s = String::from("C4{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.b.txt()); s.push(' ');s.push_str("c="); s.push_str(&self.c.txt()); s.push(' '); s.push('}'); s } }
impl C4 { pub fn schema() -> Schema { Schema::Struct { name: "C4", fields: vec![Fld { id: "a", indexed: false, role: Role::Multi("a"), opt: true, dflt: None, dec: Dec::Node(P0::schema) }, Fld { id: "b", indexed: false, role: Role::Multi("b-b"), opt: false, dflt: Some({ let d: Vec<P0> = vec![]; d.txt() }), dec: Dec::Node(P0::schema) }, Fld { id: "c", indexed: false, role: Role::Child("c"), opt: false, dflt: Some({ let d: P0 = P0 { v: 77 }; d.txt() }), dec: Dec::Node(P0::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct C5 {
    #[knuffel(child, unwrap(argument))] x: i32,
    #[knuffel(child, unwrap(argument))] y: Option<String>,
    #[knuffel(child, unwrap(arguments))] z: Vec<u8>,
    #[knuffel(child, unwrap(property(name="k")))] w: Option<i64>,
}
impl Show for C5 { fn txt(&self) -> String { let mut s = String::from("C5{ "); s.push_str("x="); s.push_str(&self.x.txt()); s.push(' ');s.push_str("y="); s.push_str(&self.y.txt()); s.push(' ');s.push_str("z="); s.push_str(&self.z.txt()); s.push(' ');s.push_str("w="); s.push_str(&self.w.txt()); s.push(' '); s.push('}'); s } }
impl C5 { pub fn schema() -> Schema { Schema::Struct { name: "C5", fields: vec![Fld { id: "x", indexed: false, role: Role::Child("x"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "x", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }, Fld { id: "y", indexed: false, role: Role::Child("y"), opt: true, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "y", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<String as Sc>::expect) })) }, Fld { id: "z", indexed: false, role: Role::Child("z"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "z", indexed: false, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Scalar(<u8 as Sc>::expect) })) }, Fld { id: "w", indexed: false, role: Role::Child("w"), opt: true, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "w", indexed: false, role: Role::Prop("k"), opt: false, dflt: None, dec: Dec::Scalar(<i64 as Sc>::expect) })) }] } } }
#[derive(knuffel::Decode)]
pub struct C6 {
    #[knuffel(children(name="v"), unwrap(argument))] x: Vec<i32>,
    #[knuffel(child, unwrap(properties))] m: BTreeMap<String, i32>,
    #[knuffel(child, unwrap(children))] n: Option<Vec<P0>>,
}
impl Show for C6 { fn txt(&self) -> String { let mut s = String::from("C6{ "); s.push_str("x="); s.push_str(&self.x.txt()); s.push(' ');s.push_str("m="); s.push_str(&self.m.txt()); s.push(' ');s.push_str("n="); s.push_str(&self.n.txt()); s.push(' '); s.push('}'); s } }
impl C6 { pub fn schema() -> Schema { Schema::Struct { name: "C6", fields: vec![Fld { id: "x", indexed: false, role: Role::Multi("v"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "x", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }, Fld { id: "m", indexed: false, role: Role::Child("m"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "m", indexed: false, role: Role::Props(|s| s.parse::<String>().map(|x| x.txt()).ok(), true), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }, Fld { id: "n", indexed: false, role: Role::Child("n"), opt: true, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "n", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Node(P0::schema) })) }] } } }
#[derive(knuffel::Decode)]
pub struct C7 {
    #[knuffel(child, unwrap(argument, str))] s: i32,
    #[knuffel(child, unwrap(argument, default=12))] d: i32,
    #[knuffel(child, unwrap(children(name="q")))] l: Vec<P0>,
    #[knuffel(children, unwrap(argument))] others: Vec<i64>,
}
impl Show for C7 { fn txt(&self) -> String { let mut s = String::from("C7{ "); s.push_str("s="); s.push_str(&self.s.txt()); s.push(' ');s.push_str("d="); s.push_str(&self.d.txt()); s.push(' ');s.push_str("l="); s.push_str(&self.l.txt()); s.push(' ');s.push_str("others="); s.push_str(&self.others.txt()); s.push(' '); s.push('}'); s } }
impl C7 { pub fn schema() -> Schema { Schema::Struct { name: "C7", fields: vec![Fld { id: "s", indexed: false, role: Role::Child("s"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "s", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) })) }, Fld { id: "d", indexed: false, role: Role::Child("d"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "d", indexed: false, role: Role::Arg, opt: false, dflt: Some({ let d: i32 = 12; d.txt() }), dec: Dec::Scalar(<i32 as Sc>::expect) })) }, Fld { id: "l", indexed: false, role: Role::Child("l"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "l", indexed: false, role: Role::Multi("q"), opt: false, dflt: None, dec: Dec::Node(P0::schema) })) }, Fld { id: "others", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "others", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i64 as Sc>::expect) })) }] } } }
#[derive(knuffel::Decode)]
pub struct C8 {
    #[knuffel(child, unwrap(children(name="x"), unwrap(argument)))] n: Vec<i32>,
    #[knuffel(child, unwrap(argument))] flag: bool,
    #[knuffel(child, unwrap(argument))] maybe: Option<bool>,
}
impl Show for C8 { fn txt(&self) -> String { let mut s = String::from("C8{ "); s.push_str("n="); s.push_str(&self.n.txt()); s.push(' ');s.push_str("flag="); s.push_str(&self.flag.txt()); s.push(' ');s.push_str("maybe="); s.push_str(&self.maybe.txt()); s.push(' '); s.push('}'); s } }
impl C8 { pub fn schema() -> Schema { Schema::Struct { name: "C8", fields: vec![Fld { id: "n", indexed: false, role: Role::Child("n"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "n", indexed: false, role: Role::Multi("x"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "n", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) })) }, Fld { id: "flag", indexed: false, role: Role::Child("flag"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "flag", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<bool as Sc>::expect) })) }, Fld { id: "maybe", indexed: false, role: Role::Child("maybe"), opt: true, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "maybe", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<bool as Sc>::expect) })) }] } } }
#[derive(knuffel::Decode)]
pub struct C9 {
    #[knuffel(argument)] arg: i32,
    #[knuffel(property)] prop: Option<i32>,
    #[knuffel(child)] sub: Option<C1>,
    #[knuffel(children(name="sub-list"))] subs: Vec<C2>,
    #[knuffel(child)] on: bool,
    #[knuffel(child)] off: bool,
}
impl Show for C9 { fn txt(&self) -> String { let mut s = String::from("C9{ "); s.push_str("arg="); s.push_str(&self.arg.txt()); s.push(' ');s.push_str("prop="); s.push_str(&self.prop.txt()); s.push(' ');s.push_str("sub="); s.push_str(&self.sub.txt()); s.push(' ');s.push_str("subs="); s.push_str(&self.subs.txt()); s.push(' ');s.push_str("on="); s.push_str(&self.on.txt()); s.push(' ');s.push_str("off="); s.push_str(&self.off.txt()); s.push(' '); s.push('}'); s } }
impl C9 { pub fn schema() -> Schema { Schema::Struct { name: "C9", fields: vec![Fld { id: "arg", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "prop", indexed: false, role: Role::Prop("prop"), opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }, Fld { id: "sub", indexed: false, role: Role::Child("sub"), opt: true, dflt: None, dec: Dec::Node(C1::schema) }, Fld { id: "subs", indexed: false, role: Role::Multi("sub-list"), opt: false, dflt: None, dec: Dec::Node(C2::schema) }, Fld { id: "on", indexed: false, role: Role::Flag("on"), opt: false, dflt: None, dec: Dec::Nothing }, Fld { id: "off", indexed: false, role: Role::Flag("off"), opt: false, dflt: None, dec: Dec::Nothing }] } } }
#[derive(knuffel::Decode)]
pub struct C10 {
    #[knuffel(child)] a: Box<P0>,
    #[knuffel(child)] r#match: Option<P0>,
    #[knuffel(child)] u: Unit0,
}
impl Show for C10 { fn txt(&self) -> String { let mut s = String::from("C10{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("match="); s.push_str(&self.r#match.txt()); s.push(' ');s.push_str("u="); s.push_str(&self.u.txt()); s.push(' '); s.push('}'); s } }
impl C10 { pub fn schema() -> Schema { Schema::Struct { name: "C10", fields: vec![Fld { id: "a", indexed: false, role: Role::Child("a"), opt: false, dflt: None, dec: Dec::Node(P0::schema) }, Fld { id: "match", indexed: false, role: Role::Child("match"), opt: true, dflt: None, dec: Dec::Node(P0::schema) }, Fld { id: "u", indexed: false, role: Role::Child("u"), opt: false, dflt: None, dec: Dec::Node(Unit0::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct C11 {
    #[knuffel(child, unwrap(argument), default=5)] d: i32,
    #[knuffel(child, default=P0 { v: 1 })] e: P0,
    #[knuffel(children(name="m"), unwrap(argument), default=vec![3])] m: Vec<i32>,
    #[knuffel(children(name="o"), unwrap(argument), default=Some(vec![4]))] o: Option<Vec<i32>>,
}
impl Show for C11 { fn txt(&self) -> String { let mut s = String::from("C11{ "); s.push_str("d="); s.push_str(&self.d.txt()); s.push(' ');s.push_str("e="); s.push_str(&self.e.txt()); s.push(' ');s.push_str("m="); s.push_str(&self.m.txt()); s.push(' ');s.push_str("o="); s.push_str(&self.o.txt()); s.push(' '); s.push('}'); s } }
impl C11 { pub fn schema() -> Schema { Schema::Struct { name: "C11", fields: vec![Fld { id: "d", indexed: false, role: Role::Child("d"), opt: false, dflt: Some({ let d: i32 = 5; d.txt() }), dec: Dec::Unwrap(Box::new(Fld { id: "d", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }, Fld { id: "e", indexed: false, role: Role::Child("e"), opt: false, dflt: Some({ let d: P0 = P0 { v: 1 }; d.txt() }), dec: Dec::Node(P0::schema) }, Fld { id: "m", indexed: false, role: Role::Multi("m"), opt: false, dflt: Some({ let d: Vec<i32> = vec![3]; d.txt() }), dec: Dec::Unwrap(Box::new(Fld { id: "m", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }, Fld { id: "o", indexed: false, role: Role::Multi("o"), opt: true, dflt: Some({ let d: Option<Vec<i32>> = Some(vec![4]); d.txt() }), dec: Dec::Unwrap(Box::new(Fld { id: "o", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }] } } }
#[derive(knuffel::Decode)]
pub struct C12 {
    #[knuffel(children(name="p"))] fst: Vec<P1>,
    #[knuffel(child)] snd: Option<P2>,
    #[knuffel(child)] f: bool,
    #[knuffel(children)] rest: Vec<P2>,
}
impl Show for C12 { fn txt(&self) -> String { let mut s = String::from("C12{ "); s.push_str("fst="); s.push_str(&self.fst.txt()); s.push(' ');s.push_str("snd="); s.push_str(&self.snd.txt()); s.push(' ');s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl C12 { pub fn schema() -> Schema { Schema::Struct { name: "C12", fields: vec![Fld { id: "fst", indexed: false, role: Role::Multi("p"), opt: false, dflt: None, dec: Dec::Node(P1::schema) }, Fld { id: "snd", indexed: false, role: Role::Child("snd"), opt: true, dflt: None, dec: Dec::Node(P2::schema) }, Fld { id: "f", indexed: false, role: Role::Flag("f"), opt: false, dflt: None, dec: Dec::Nothing }, Fld { id: "rest", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Node(P2::schema) }] } } }
#[derive(knuffel::Decode, Default)]
pub struct C13 {
    #[knuffel(children(name="x"), unwrap(argument))] x: Option<Vec<i32>>,
}
impl Show for C13 { fn txt(&self) -> String { let mut s = String::from("C13{ "); s.push_str("x="); s.push_str(&self.x.txt()); s.push(' '); s.push('}'); s } }
impl C13 { pub fn schema() -> Schema { Schema::Struct { name: "C13", fields: vec![Fld { id: "x", indexed: false, role: Role::Multi("x"), opt: true, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "x", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }] } } }
#[derive(knuffel::Decode)]
pub struct C14 {
    #[knuffel(children, unwrap(arguments))] lists: Vec<Vec<i32>>,
}
impl Show for C14 { fn txt(&self) -> String { let mut s = String::from("C14{ "); s.push_str("lists="); s.push_str(&self.lists.txt()); s.push(' '); s.push('}'); s } }
impl C14 { pub fn schema() -> Schema { Schema::Struct { name: "C14", fields: vec![Fld { id: "lists", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "lists", indexed: false, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }] } } }
#[derive(knuffel::Decode, Default)]
pub struct F0 {
    #[knuffel(property)] a: Option<i32>,
    #[knuffel(property)] b: Option<String>,
}
impl Show for F0 { fn txt(&self) -> String { let mut s = String::from("F0{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.b.txt()); s.push(' '); s.push('}'); s } }
impl F0 { pub fn schema() -> Schema { Schema::Struct { name: "F0", fields: vec![Fld { id: "a", indexed: false, role: Role::Prop("a"), opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }, Fld { id: "b", indexed: false, role: Role::Prop("b"), opt: true, dflt: None, dec: Dec::Scalar(<Option<String> as Sc>::expect) }] } } }
#[derive(knuffel::Decode, Default)]
pub struct F1 {
    #[knuffel(child)] c: Option<P0>,
    #[knuffel(child)] d: bool,
    #[knuffel(child, unwrap(argument))] u: Option<i32>,
}
impl Show for F1 { fn txt(&self) -> String { let mut s = String::from("F1{ "); s.push_str("c="); s.push_str(&self.c.txt()); s.push(' ');s.push_str("d="); s.push_str(&self.d.txt()); s.push(' ');s.push_str("u="); s.push_str(&self.u.txt()); s.push(' '); s.push('}'); s } }
impl F1 { pub fn schema() -> Schema { Schema::Struct { name: "F1", fields: vec![Fld { id: "c", indexed: false, role: Role::Child("c"), opt: true, dflt: None, dec: Dec::Node(P0::schema) }, Fld { id: "d", indexed: false, role: Role::Flag("d"), opt: false, dflt: None, dec: Dec::Nothing }, Fld { id: "u", indexed: false, role: Role::Child("u"), opt: true, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "u", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }] } } }
#[derive(knuffel::Decode, Default)]
pub struct F2 {
    #[knuffel(property)] x: Option<i32>,
    #[knuffel(child)] y: Option<P1>,
    #[knuffel(child)] z: bool,
}
impl Show for F2 { fn txt(&self) -> String { let mut s = String::from("F2{ "); s.push_str("x="); s.push_str(&self.x.txt()); s.push(' ');s.push_str("y="); s.push_str(&self.y.txt()); s.push(' ');s.push_str("z="); s.push_str(&self.z.txt()); s.push(' '); s.push('}'); s } }
impl F2 { pub fn schema() -> Schema { Schema::Struct { name: "F2", fields: vec![Fld { id: "x", indexed: false, role: Role::Prop("x"), opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }, Fld { id: "y", indexed: false, role: Role::Child("y"), opt: true, dflt: None, dec: Dec::Node(P1::schema) }, Fld { id: "z", indexed: false, role: Role::Flag("z"), opt: false, dflt: None, dec: Dec::Nothing }] } } }
#[derive(knuffel::Decode, Default)]
pub struct F3 {
    #[knuffel(property)] x: Option<i32>,
    #[knuffel(flatten(property))] inner: F0,
    #[knuffel(property)] z: Option<u8>,
}
impl Show for F3 { fn txt(&self) -> String { let mut s = String::from("F3{ "); s.push_str("x="); s.push_str(&self.x.txt()); s.push(' ');s.push_str("inner="); s.push_str(&self.inner.txt()); s.push(' ');s.push_str("z="); s.push_str(&self.z.txt()); s.push(' '); s.push('}'); s } }
impl F3 { pub fn schema() -> Schema { Schema::Struct { name: "F3", fields: vec![Fld { id: "x", indexed: false, role: Role::Prop("x"), opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }, Fld { id: "inner", indexed: false, role: Role::Flatten { c: false, p: true }, opt: false, dflt: None, dec: Dec::Node(F0::schema) }, Fld { id: "z", indexed: false, role: Role::Prop("z"), opt: true, dflt: None, dec: Dec::Scalar(<Option<u8> as Sc>::expect) }] } } }
#[derive(knuffel::Decode, Default)]
pub struct F4 {
    #[knuffel(child)] k: bool,
    #[knuffel(flatten(child))] inner: F1,
    #[knuffel(child)] l: Option<P0>,
}
impl Show for F4 { fn txt(&self) -> String { let mut s = String::from("F4{ "); s.push_str("k="); s.push_str(&self.k.txt()); s.push(' ');s.push_str("inner="); s.push_str(&self.inner.txt()); s.push(' ');s.push_str("l="); s.push_str(&self.l.txt()); s.push(' '); s.push('}'); s } }
impl F4 { pub fn schema() -> Schema { Schema::Struct { name: "F4", fields: vec![Fld { id: "k", indexed: false, role: Role::Flag("k"), opt: false, dflt: None, dec: Dec::Nothing }, Fld { id: "inner", indexed: false, role: Role::Flatten { c: true, p: false }, opt: false, dflt: None, dec: Dec::Node(F1::schema) }, Fld { id: "l", indexed: false, role: Role::Child("l"), opt: true, dflt: None, dec: Dec::Node(P0::schema) }] } } }
#[derive(knuffel::Decode, Default)]
pub struct F5 {
    #[knuffel(flatten(child, property))] both: F2,
    #[knuffel(property, str)] w: Option<i32>,
}
impl Show for F5 { fn txt(&self) -> String { let mut s = String::from("F5{ "); s.push_str("both="); s.push_str(&self.both.txt()); s.push(' ');s.push_str("w="); s.push_str(&self.w.txt()); s.push(' '); s.push('}'); s } }
impl F5 { pub fn schema() -> Schema { Schema::Struct { name: "F5", fields: vec![Fld { id: "both", indexed: false, role: Role::Flatten { c: true, p: true }, opt: false, dflt: None, dec: Dec::Node(F2::schema) }, Fld { id: "w", indexed: false, role: Role::Prop("w"), opt: true, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
pub struct G0 {
    #[knuffel(property)] own: i32,
    #[knuffel(flatten(property))] f: F0,
    #[knuffel(property)] last: Option<i32>,
}
impl Show for G0 { fn txt(&self) -> String { let mut s = String::from("G0{ "); s.push_str("own="); s.push_str(&self.own.txt()); s.push(' ');s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("last="); s.push_str(&self.last.txt()); s.push(' '); s.push('}'); s } }
impl G0 { pub fn schema() -> Schema { Schema::Struct { name: "G0", fields: vec![Fld { id: "own", indexed: false, role: Role::Prop("own"), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "f", indexed: false, role: Role::Flatten { c: false, p: true }, opt: false, dflt: None, dec: Dec::Node(F0::schema) }, Fld { id: "last", indexed: false, role: Role::Prop("last"), opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct G1 {
    #[knuffel(flatten(child))] f: F1,
    #[knuffel(child)] own: P0,
}
impl Show for G1 { fn txt(&self) -> String { let mut s = String::from("G1{ "); s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("own="); s.push_str(&self.own.txt()); s.push(' '); s.push('}'); s } }
impl G1 { pub fn schema() -> Schema { Schema::Struct { name: "G1", fields: vec![Fld { id: "f", indexed: false, role: Role::Flatten { c: true, p: false }, opt: false, dflt: None, dec: Dec::Node(F1::schema) }, Fld { id: "own", indexed: false, role: Role::Child("own"), opt: false, dflt: None, dec: Dec::Node(P0::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct G2 {
    #[knuffel(argument)] arg: i32,
    #[knuffel(flatten(child, property))] f: F2,
    #[knuffel(child)] own: Option<P0>,
    #[knuffel(property)] p: i32,
}
impl Show for G2 { fn txt(&self) -> String { let mut s = String::from("G2{ "); s.push_str("arg="); s.push_str(&self.arg.txt()); s.push(' ');s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("own="); s.push_str(&self.own.txt()); s.push(' ');s.push_str("p="); s.push_str(&self.p.txt()); s.push(' '); s.push('}'); s } }
impl G2 { pub fn schema() -> Schema { Schema::Struct { name: "G2", fields: vec![Fld { id: "arg", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "f", indexed: false, role: Role::Flatten { c: true, p: true }, opt: false, dflt: None, dec: Dec::Node(F2::schema) }, Fld { id: "own", indexed: false, role: Role::Child("own"), opt: true, dflt: None, dec: Dec::Node(P0::schema) }, Fld { id: "p", indexed: false, role: Role::Prop("p"), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct G3 {
    #[knuffel(flatten(property))] f: F3,
    #[knuffel(properties)] rest: BTreeMap<String, i32>,
}
impl Show for G3 { fn txt(&self) -> String { let mut s = String::from("G3{ "); s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl G3 { pub fn schema() -> Schema { Schema::Struct { name: "G3", fields: vec![Fld { id: "f", indexed: false, role: Role::Flatten { c: false, p: true }, opt: false, dflt: None, dec: Dec::Node(F3::schema) }, Fld { id: "rest", indexed: false, role: Role::Props(|s| s.parse::<String>().map(|x| x.txt()).ok(), true), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct G4 {
    #[knuffel(flatten(child))] f: F4,
    #[knuffel(children)] rest: Vec<P1>,
}
impl Show for G4 { fn txt(&self) -> String { let mut s = String::from("G4{ "); s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl G4 { pub fn schema() -> Schema { Schema::Struct { name: "G4", fields: vec![Fld { id: "f", indexed: false, role: Role::Flatten { c: true, p: false }, opt: false, dflt: None, dec: Dec::Node(F4::schema) }, Fld { id: "rest", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Node(P1::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct G5 {
    #[knuffel(property)] a: i32,
    #[knuffel(flatten(property))] f: F0,
    #[knuffel(flatten(property))] g: F3,
}
impl Show for G5 { fn txt(&self) -> String { let mut s = String::from("G5{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("g="); s.push_str(&self.g.txt()); s.push(' '); s.push('}'); s } }
impl G5 { pub fn schema() -> Schema { Schema::Struct { name: "G5", fields: vec![Fld { id: "a", indexed: false, role: Role::Prop("a"), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "f", indexed: false, role: Role::Flatten { c: false, p: true }, opt: false, dflt: None, dec: Dec::Node(F0::schema) }, Fld { id: "g", indexed: false, role: Role::Flatten { c: false, p: true }, opt: false, dflt: None, dec: Dec::Node(F3::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct G6 {
    #[knuffel(child)] d: bool,
    #[knuffel(flatten(child))] f: F4,
    #[knuffel(flatten(child))] g: F1,
    #[knuffel(child)] c: Option<P1>,
}
impl Show for G6 { fn txt(&self) -> String { let mut s = String::from("G6{ "); s.push_str("d="); s.push_str(&self.d.txt()); s.push(' ');s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("g="); s.push_str(&self.g.txt()); s.push(' ');s.push_str("c="); s.push_str(&self.c.txt()); s.push(' '); s.push('}'); s } }
impl G6 { pub fn schema() -> Schema { Schema::Struct { name: "G6", fields: vec![Fld { id: "d", indexed: false, role: Role::Flag("d"), opt: false, dflt: None, dec: Dec::Nothing }, Fld { id: "f", indexed: false, role: Role::Flatten { c: true, p: false }, opt: false, dflt: None, dec: Dec::Node(F4::schema) }, Fld { id: "g", indexed: false, role: Role::Flatten { c: true, p: false }, opt: false, dflt: None, dec: Dec::Node(F1::schema) }, Fld { id: "c", indexed: false, role: Role::Child("c"), opt: true, dflt: None, dec: Dec::Node(P1::schema) }] } } }
#[derive(knuffel::Decode, Default)]
pub struct G7 {
    #[knuffel(flatten(child, property))] f: F5,
}
impl Show for G7 { fn txt(&self) -> String { let mut s = String::from("G7{ "); s.push_str("f="); s.push_str(&self.f.txt()); s.push(' '); s.push('}'); s } }
impl G7 { pub fn schema() -> Schema { Schema::Struct { name: "G7", fields: vec![Fld { id: "f", indexed: false, role: Role::Flatten { c: true, p: true }, opt: false, dflt: None, dec: Dec::Node(F5::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct G8 {
    #[knuffel(flatten(child, property))] f: Box<F7>,
    #[knuffel(argument)] n: i32,
}
impl Show for G8 { fn txt(&self) -> String { let mut s = String::from("G8{ "); s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("n="); s.push_str(&self.n.txt()); s.push(' '); s.push('}'); s } }
impl G8 { pub fn schema() -> Schema { Schema::Struct { name: "G8", fields: vec![Fld { id: "f", indexed: false, role: Role::Flatten { c: true, p: true }, opt: false, dflt: None, dec: Dec::Node(F7::schema) }, Fld { id: "n", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }] } } }
#[derive(knuffel::Decode, Default)]
pub struct F7 {
    #[knuffel(flatten(child, property))] g: G7,
    #[knuffel(property)] q: Option<i8>,
}
impl Show for F7 { fn txt(&self) -> String { let mut s = String::from("F7{ "); s.push_str("g="); s.push_str(&self.g.txt()); s.push(' ');s.push_str("q="); s.push_str(&self.q.txt()); s.push(' '); s.push('}'); s } }
impl F7 { pub fn schema() -> Schema { Schema::Struct { name: "F7", fields: vec![Fld { id: "g", indexed: false, role: Role::Flatten { c: true, p: true }, opt: false, dflt: None, dec: Dec::Node(G7::schema) }, Fld { id: "q", indexed: false, role: Role::Prop("q"), opt: true, dflt: None, dec: Dec::Scalar(<Option<i8> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct G9(#[knuffel(property(name="p"))] i32, #[knuffel(flatten(property))] F0);
impl Show for G9 { fn txt(&self) -> String { let mut s = String::from("G9{ "); s.push_str("a="); s.push_str(&self.0.txt()); s.push(' ');s.push_str("f="); s.push_str(&self.1.txt()); s.push(' '); s.push('}'); s } }
impl G9 { pub fn schema() -> Schema { Schema::Struct { name: "G9", fields: vec![Fld { id: "a", indexed: true, role: Role::Prop("p"), opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "f", indexed: true, role: Role::Flatten { c: false, p: true }, opt: false, dflt: None, dec: Dec::Node(F0::schema) }] } } }
#[derive(knuffel::Decode, Default)]
pub struct F8 {
    #[knuffel(children(name="x"))] l: Option<Vec<P0>>,
    #[knuffel(property)] e: Option<Two>,
    #[knuffel(property, str)] s: Option<i32>,
    #[knuffel(property, bytes)] b: Option<Vec<u8>>,
}
impl Show for F8 { fn txt(&self) -> String { let mut s = String::from("F8{ "); s.push_str("l="); s.push_str(&self.l.txt()); s.push(' ');s.push_str("e="); s.push_str(&self.e.txt()); s.push(' ');s.push_str("s="); s.push_str(&self.s.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.b.txt()); s.push(' '); s.push('}'); s } }
impl F8 { pub fn schema() -> Schema { Schema::Struct { name: "F8", fields: vec![Fld { id: "l", indexed: false, role: Role::Multi("x"), opt: true, dflt: None, dec: Dec::Node(P0::schema) }, Fld { id: "e", indexed: false, role: Role::Prop("e"), opt: true, dflt: None, dec: Dec::ScalarEnum(Two::NAMES, true) }, Fld { id: "s", indexed: false, role: Role::Prop("s"), opt: true, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }, Fld { id: "b", indexed: false, role: Role::Prop("b"), opt: true, dflt: None, dec: Dec::Bytes(|b| <Vec<u8> as TryFrom<Vec<u8>>>::try_from(b).map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
pub struct G10 {
    #[knuffel(flatten(child, property))] f: F8,
    #[knuffel(children(name="y"))] k: Vec<P0>,
}
impl Show for G10 { fn txt(&self) -> String { let mut s = String::from("G10{ "); s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("k="); s.push_str(&self.k.txt()); s.push(' '); s.push('}'); s } }
impl G10 { pub fn schema() -> Schema { Schema::Struct { name: "G10", fields: vec![Fld { id: "f", indexed: false, role: Role::Flatten { c: true, p: true }, opt: false, dflt: None, dec: Dec::Node(F8::schema) }, Fld { id: "k", indexed: false, role: Role::Multi("y"), opt: false, dflt: None, dec: Dec::Node(P0::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct G11 {
    #[knuffel(flatten(child))] f: C13,
    #[knuffel(child)] k: bool,
}
impl Show for G11 { fn txt(&self) -> String { let mut s = String::from("G11{ "); s.push_str("f="); s.push_str(&self.f.txt()); s.push(' ');s.push_str("k="); s.push_str(&self.k.txt()); s.push(' '); s.push('}'); s } }
impl G11 { pub fn schema() -> Schema { Schema::Struct { name: "G11", fields: vec![Fld { id: "f", indexed: false, role: Role::Flatten { c: true, p: false }, opt: false, dflt: None, dec: Dec::Node(C13::schema) }, Fld { id: "k", indexed: false, role: Role::Flag("k"), opt: false, dflt: None, dec: Dec::Nothing }] } } }
#[derive(knuffel::Decode)]
pub struct S1 {
    #[knuffel(node_name)] n: String,
    #[knuffel(type_name)] t: Option<String>,
    #[knuffel(argument)] a: Option<i32>,
}
impl Show for S1 { fn txt(&self) -> String { let mut s = String::from("S1{ "); s.push_str("n="); s.push_str(&self.n.txt()); s.push(' ');s.push_str("t="); s.push_str(&self.t.txt()); s.push(' ');s.push_str("a="); s.push_str(&self.a.txt()); s.push(' '); s.push('}'); s } }
impl S1 { pub fn schema() -> Schema { Schema::Struct { name: "S1", fields: vec![Fld { id: "n", indexed: false, role: Role::NodeName, opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<String>().map(|x| x.txt()).ok()) }, Fld { id: "t", indexed: false, role: Role::TypeName, opt: true, dflt: None, dec: Dec::Str(|s| s.parse::<String>().map(|x| x.txt()).ok()) }, Fld { id: "a", indexed: false, role: Role::Arg, opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub struct S2 {
    #[knuffel(type_name)] t: i32,
    #[knuffel(node_name)] n: String,
    #[knuffel(property)] a: Option<i32>,
    x: u64,
}
impl Show for S2 { fn txt(&self) -> String { let mut s = String::from("S2{ "); s.push_str("t="); s.push_str(&self.t.txt()); s.push(' ');s.push_str("n="); s.push_str(&self.n.txt()); s.push(' ');s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("x="); s.push_str(&self.x.txt()); s.push(' '); s.push('}'); s } }
impl S2 { pub fn schema() -> Schema { Schema::Struct { name: "S2", fields: vec![Fld { id: "t", indexed: false, role: Role::TypeName, opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }, Fld { id: "n", indexed: false, role: Role::NodeName, opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<String>().map(|x| x.txt()).ok()) }, Fld { id: "a", indexed: false, role: Role::Prop("a"), opt: true, dflt: None, dec: Dec::Scalar(<Option<i32> as Sc>::expect) }, Fld { id: "x", indexed: false, role: Role::Extra, opt: false, dflt: Some(<u64>::default().txt()), dec: Dec::Nothing }] } } }
#[derive(knuffel::Decode)]
pub struct S3 {
    #[knuffel(node_name)] n: i32,
    #[knuffel(child)] c: Option<S1>,
}
impl Show for S3 { fn txt(&self) -> String { let mut s = String::from("S3{ "); s.push_str("n="); s.push_str(&self.n.txt()); s.push(' ');s.push_str("c="); s.push_str(&self.c.txt()); s.push(' '); s.push('}'); s } }
impl S3 { pub fn schema() -> Schema { Schema::Struct { name: "S3", fields: vec![Fld { id: "n", indexed: false, role: Role::NodeName, opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<i32>().map(|x| x.txt()).ok()) }, Fld { id: "c", indexed: false, role: Role::Child("c"), opt: true, dflt: None, dec: Dec::Node(S1::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct S4(String, #[knuffel(argument)] i32, Option<i32>, #[knuffel(argument)] i32);
impl Show for S4 { fn txt(&self) -> String { let mut s = String::from("S4{ "); s.push_str("x="); s.push_str(&self.0.txt()); s.push(' ');s.push_str("a="); s.push_str(&self.1.txt()); s.push(' ');s.push_str("y="); s.push_str(&self.2.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.3.txt()); s.push(' '); s.push('}'); s } }
impl S4 { pub fn schema() -> Schema { Schema::Struct { name: "S4", fields: vec![Fld { id: "x", indexed: true, role: Role::Extra, opt: false, dflt: Some(<String>::default().txt()), dec: Dec::Nothing }, Fld { id: "a", indexed: true, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "y", indexed: true, role: Role::Extra, opt: true, dflt: Some(<Option<i32>>::default().txt()), dec: Dec::Nothing }, Fld { id: "b", indexed: true, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
#[knuffel(span_type=knuffel::span::Span)]
pub struct S5 {
    #[knuffel(span)] s: Span,
    #[knuffel(argument)] a: i32,
    #[knuffel(children(name="c"))] c: Vec<S6>,
    #[knuffel(node_name)] n: String,
}
impl Show for S5 { fn txt(&self) -> String { let mut s = String::from("S5{ "); s.push_str("s="); s.push_str(&self.s.txt()); s.push(' ');s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("c="); s.push_str(&self.c.txt()); s.push(' ');s.push_str("n="); s.push_str(&self.n.txt()); s.push(' '); s.push('}'); s } }
impl S5 { pub fn schema() -> Schema { Schema::Struct { name: "S5", fields: vec![Fld { id: "s", indexed: false, role: Role::Span, opt: false, dflt: None, dec: Dec::Nothing }, Fld { id: "a", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "c", indexed: false, role: Role::Multi("c"), opt: false, dflt: None, dec: Dec::Node(S6::schema) }, Fld { id: "n", indexed: false, role: Role::NodeName, opt: false, dflt: None, dec: Dec::Str(|s| s.parse::<String>().map(|x| x.txt()).ok()) }] } } }
#[derive(knuffel::Decode)]
#[knuffel(span_type=knuffel::span::Span)]
pub struct S6 {
    #[knuffel(span)] s: Span,
    #[knuffel(argument)] v: Spanned<i32, Span>,
    #[knuffel(argument)] o: Option<Spanned<String, Span>>,
    #[knuffel(property)] p: Option<Spanned<i32, Span>>,
}
impl Show for S6 { fn txt(&self) -> String { let mut s = String::from("S6{ "); s.push_str("s="); s.push_str(&self.s.txt()); s.push(' ');s.push_str("v="); s.push_str(&self.v.txt()); s.push(' ');s.push_str("o="); s.push_str(&self.o.txt()); s.push(' ');s.push_str("p="); s.push_str(&self.p.txt()); s.push(' '); s.push('}'); s } }
impl S6 { pub fn schema() -> Schema { Schema::Struct { name: "S6", fields: vec![Fld { id: "s", indexed: false, role: Role::Span, opt: false, dflt: None, dec: Dec::Nothing }, Fld { id: "v", indexed: false, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<Spanned<i32, Span> as Sc>::expect) }, Fld { id: "o", indexed: false, role: Role::Arg, opt: true, dflt: None, dec: Dec::Scalar(<Option<Spanned<String, Span>> as Sc>::expect) }, Fld { id: "p", indexed: false, role: Role::Prop("p"), opt: true, dflt: None, dec: Dec::Scalar(<Option<Spanned<i32, Span>> as Sc>::expect) }] } } }
#[derive(knuffel::Decode)]
pub enum E1 {
    Alpha,
    BetaGamma(P0),
    OptNode(Option<P1>),
    Tup(#[knuffel(argument)] i32, #[knuffel(property(name="b"))] Option<u8>),
}
impl Show for E1 { fn txt(&self) -> String { match self { E1::Alpha => "Alpha".into(), E1::BetaGamma(x) => format!("BetaGamma({})", x.txt()), E1::OptNode(x) => format!("OptNode({})", x.txt()), E1::Tup(x0, x1) => { let mut s = String::from("Tup{ "); s.push_str("a="); s.push_str(&x0.txt()); s.push(' ');s.push_str("b="); s.push_str(&x1.txt()); s.push(' '); s.push('}'); s }  } } }
impl E1 { pub fn schema() -> Schema { Schema::Enum { variants: vec![("alpha", "Alpha", VKind::Unit), ("beta-gamma", "BetaGamma", VKind::Nested { opt: false, of: P0::schema }), ("opt-node", "OptNode", VKind::Nested { opt: true, of: P1::schema }), ("tup", "Tup", VKind::Tuple(vec![Fld { id: "a", indexed: true, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "b", indexed: true, role: Role::Prop("b"), opt: true, dflt: None, dec: Dec::Scalar(<Option<u8> as Sc>::expect) }]))] } } }
#[derive(knuffel::Decode)]
pub enum E2 {
    HTTPServer(P0),
    X,
    #[knuffel(skip)] #[allow(dead_code)] Hidden(String),
}
impl Show for E2 { fn txt(&self) -> String { match self { E2::HTTPServer(x) => format!("HTTPServer({})", x.txt()), E2::X => "X".into(), E2::Hidden(_) => "SKIPPED".into(),  } } }
impl E2 { pub fn schema() -> Schema { Schema::Enum { variants: vec![("http-server", "HTTPServer", VKind::Nested { opt: false, of: P0::schema }), ("x", "X", VKind::Unit)] } } }
#[derive(knuffel::Decode)]
pub enum E3 {
    Nest(C1),
    Type(Unit0),
    A(E2),
    List(#[knuffel(arguments)] Vec<i64>, #[knuffel(properties)] BTreeMap<String, String>),
}
impl Show for E3 { fn txt(&self) -> String { match self { E3::Nest(x) => format!("Nest({})", x.txt()), E3::Type(x) => format!("Type({})", x.txt()), E3::A(x) => format!("A({})", x.txt()), E3::List(x0, x1) => { let mut s = String::from("List{ "); s.push_str("r="); s.push_str(&x0.txt()); s.push(' ');s.push_str("p="); s.push_str(&x1.txt()); s.push(' '); s.push('}'); s }  } } }
impl E3 { pub fn schema() -> Schema { Schema::Enum { variants: vec![("nest", "Nest", VKind::Nested { opt: false, of: C1::schema }), ("type", "Type", VKind::Nested { opt: false, of: Unit0::schema }), ("a", "A", VKind::Nested { opt: false, of: E2::schema }), ("list", "List", VKind::Tuple(vec![Fld { id: "r", indexed: true, role: Role::Args(false), opt: false, dflt: None, dec: Dec::Scalar(<i64 as Sc>::expect) }, Fld { id: "p", indexed: true, role: Role::Props(|s| s.parse::<String>().map(|x| x.txt()).ok(), true), opt: false, dflt: None, dec: Dec::Scalar(<String as Sc>::expect) }]))] } } }
#[derive(knuffel::Decode)]
pub enum E4 {
    V(#[knuffel(argument)] i32, #[knuffel(children)] Vec<P0>),
    W(#[knuffel(children(name="k"), unwrap(argument))] Vec<i32>, i32),
    U(Option<E4Box>),
}
impl Show for E4 { fn txt(&self) -> String { match self { E4::V(x0, x1) => { let mut s = String::from("V{ "); s.push_str("x="); s.push_str(&x0.txt()); s.push(' ');s.push_str("c="); s.push_str(&x1.txt()); s.push(' '); s.push('}'); s } E4::W(x0, x1) => { let mut s = String::from("W{ "); s.push_str("x="); s.push_str(&x0.txt()); s.push(' ');s.push_str("y="); s.push_str(&x1.txt()); s.push(' '); s.push('}'); s } E4::U(x) => format!("U({})", x.txt()),  } } }
impl E4 { pub fn schema() -> Schema { Schema::Enum { variants: vec![("v", "V", VKind::Tuple(vec![Fld { id: "x", indexed: true, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) }, Fld { id: "c", indexed: true, role: Role::Children, opt: false, dflt: None, dec: Dec::Node(P0::schema) }])), ("w", "W", VKind::Tuple(vec![Fld { id: "x", indexed: true, role: Role::Multi("k"), opt: false, dflt: None, dec: Dec::Unwrap(Box::new(Fld { id: "x", indexed: true, role: Role::Arg, opt: false, dflt: None, dec: Dec::Scalar(<i32 as Sc>::expect) })) }, Fld { id: "y", indexed: true, role: Role::Extra, opt: false, dflt: Some(<i32>::default().txt()), dec: Dec::Nothing }])), ("u", "U", VKind::Nested { opt: true, of: E4Box::schema })] } } }
#[derive(knuffel::Decode)]
pub struct E4Box {
    #[knuffel(children)] v: Vec<E4>,
}
impl Show for E4Box { fn txt(&self) -> String { let mut s = String::from("E4Box{ "); s.push_str("v="); s.push_str(&self.v.txt()); s.push(' '); s.push('}'); s } }
impl E4Box { pub fn schema() -> Schema { Schema::Struct { name: "E4Box", fields: vec![Fld { id: "v", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Node(E4::schema) }] } } }
#[derive(knuffel::Decode)]
pub enum E5 {
    Only,
}
impl Show for E5 { fn txt(&self) -> String { match self { E5::Only => "Only".into(),  } } }
impl E5 { pub fn schema() -> Schema { Schema::Enum { variants: vec![("only", "Only", VKind::Unit)] } } }
#[derive(knuffel::Decode)]
pub struct N1(P0);
impl Show for N1 { fn txt(&self) -> String { format!("N1({})", self.0.txt()) } }
impl N1 { pub fn schema() -> Schema { Schema::New { name: "N1", opt: false, of: P0::schema } } }
#[derive(knuffel::Decode)]
pub struct N2(Option<P1>);
impl Show for N2 { fn txt(&self) -> String { format!("N2({})", self.0.txt()) } }
impl N2 { pub fn schema() -> Schema { Schema::New { name: "N2", opt: true, of: P1::schema } } }
#[derive(knuffel::Decode)]
pub struct N3(E1);
impl Show for N3 { fn txt(&self) -> String { format!("N3({})", self.0.txt()) } }
impl N3 { pub fn schema() -> Schema { Schema::New { name: "N3", opt: false, of: E1::schema } } }
#[derive(knuffel::Decode)]
pub struct N4(Option<C1>);
impl Show for N4 { fn txt(&self) -> String { format!("N4({})", self.0.txt()) } }
impl N4 { pub fn schema() -> Schema { Schema::New { name: "N4", opt: true, of: C1::schema } } }
#[derive(knuffel::Decode)]
pub struct M1 {
    #[knuffel(children)] e: Vec<E3>,
}
impl Show for M1 { fn txt(&self) -> String { let mut s = String::from("M1{ "); s.push_str("e="); s.push_str(&self.e.txt()); s.push(' '); s.push('}'); s } }
impl M1 { pub fn schema() -> Schema { Schema::Struct { name: "M1", fields: vec![Fld { id: "e", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Node(E3::schema) }] } } }
#[derive(knuffel::Decode)]
pub struct M2 {
    #[knuffel(child)] a: Option<N2>,
    #[knuffel(child)] b: N1,
    #[knuffel(child)] u: Option<Empty0>,
    #[knuffel(children)] rest: Vec<E2>,
}
impl Show for M2 { fn txt(&self) -> String { let mut s = String::from("M2{ "); s.push_str("a="); s.push_str(&self.a.txt()); s.push(' ');s.push_str("b="); s.push_str(&self.b.txt()); s.push(' ');s.push_str("u="); s.push_str(&self.u.txt()); s.push(' ');s.push_str("rest="); s.push_str(&self.rest.txt()); s.push(' '); s.push('}'); s } }
impl M2 { pub fn schema() -> Schema { Schema::Struct { name: "M2", fields: vec![Fld { id: "a", indexed: false, role: Role::Child("a"), opt: true, dflt: None, dec: Dec::Node(N2::schema) }, Fld { id: "b", indexed: false, role: Role::Child("b"), opt: false, dflt: None, dec: Dec::Node(N1::schema) }, Fld { id: "u", indexed: false, role: Role::Child("u"), opt: true, dflt: None, dec: Dec::Node(Empty0::schema) }, Fld { id: "rest", indexed: false, role: Role::Children, opt: false, dflt: None, dec: Dec::Node(E2::schema) }] } } }

pub fn all() -> Vec<Type> {
    vec![
        Type { name: "P0", props: "C16", schema: P0::schema, a: run::<Span, P0>, b: Some(run::<LineSpan, P0>), root: None },
        Type { name: "P1", props: "C16", schema: P1::schema, a: run::<Span, P1>, b: Some(run::<LineSpan, P1>), root: None },
        Type { name: "P2", props: "C17", schema: P2::schema, a: run::<Span, P2>, b: Some(run::<LineSpan, P2>), root: None },
        Type { name: "Unit0", props: "C19", schema: Unit0::schema, a: run::<Span, Unit0>, b: Some(run::<LineSpan, Unit0>), root: None },
        Type { name: "Empty0", props: "C19", schema: Empty0::schema, a: run::<Span, Empty0>, b: Some(run::<LineSpan, Empty0>), root: None },
        Type { name: "A1", props: "C16", schema: A1::schema, a: run::<Span, A1>, b: Some(run::<LineSpan, A1>), root: None },
        Type { name: "A2", props: "C16", schema: A2::schema, a: run::<Span, A2>, b: Some(run::<LineSpan, A2>), root: None },
        Type { name: "A3", props: "C16", schema: A3::schema, a: run::<Span, A3>, b: Some(run::<LineSpan, A3>), root: None },
        Type { name: "A4", props: "C16,C15", schema: A4::schema, a: run::<Span, A4>, b: Some(run::<LineSpan, A4>), root: None },
        Type { name: "A5", props: "C16,C15", schema: A5::schema, a: run::<Span, A5>, b: Some(run::<LineSpan, A5>), root: None },
        Type { name: "A6", props: "C16", schema: A6::schema, a: run::<Span, A6>, b: Some(run::<LineSpan, A6>), root: None },
        Type { name: "A7", props: "C16", schema: A7::schema, a: run::<Span, A7>, b: Some(run::<LineSpan, A7>), root: None },
        Type { name: "A8", props: "C16,C19", schema: A8::schema, a: run::<Span, A8>, b: Some(run::<LineSpan, A8>), root: None },
        Type { name: "A9", props: "C16", schema: A9::schema, a: run::<Span, A9>, b: Some(run::<LineSpan, A9>), root: None },
        Type { name: "A10", props: "C16", schema: A10::schema, a: run::<Span, A10>, b: Some(run::<LineSpan, A10>), root: None },
        Type { name: "A11", props: "C16,C15", schema: A11::schema, a: run::<Span, A11>, b: Some(run::<LineSpan, A11>), root: None },
        Type { name: "A12", props: "C16", schema: A12::schema, a: run::<Span, A12>, b: Some(run::<LineSpan, A12>), root: None },
        Type { name: "B1", props: "C16", schema: B1::schema, a: run::<Span, B1>, b: Some(run::<LineSpan, B1>), root: None },
        Type { name: "B2", props: "C16", schema: B2::schema, a: run::<Span, B2>, b: Some(run::<LineSpan, B2>), root: None },
        Type { name: "B3", props: "C16", schema: B3::schema, a: run::<Span, B3>, b: Some(run::<LineSpan, B3>), root: None },
        Type { name: "B4", props: "C16", schema: B4::schema, a: run::<Span, B4>, b: Some(run::<LineSpan, B4>), root: None },
        Type { name: "B5", props: "C16", schema: B5::schema, a: run::<Span, B5>, b: Some(run::<LineSpan, B5>), root: None },
        Type { name: "B6", props: "C16,C15", schema: B6::schema, a: run::<Span, B6>, b: Some(run::<LineSpan, B6>), root: None },
        Type { name: "B7", props: "C16", schema: B7::schema, a: run::<Span, B7>, b: Some(run::<LineSpan, B7>), root: None },
        Type { name: "B8", props: "C16,C19", schema: B8::schema, a: run::<Span, B8>, b: Some(run::<LineSpan, B8>), root: None },
        Type { name: "B9", props: "C16,C15", schema: B9::schema, a: run::<Span, B9>, b: Some(run::<LineSpan, B9>), root: None },
        Type { name: "B10", props: "C16", schema: B10::schema, a: run::<Span, B10>, b: Some(run::<LineSpan, B10>), root: None },
        Type { name: "B11", props: "C16", schema: B11::schema, a: run::<Span, B11>, b: Some(run::<LineSpan, B11>), root: None },
        Type { name: "B12", props: "C16,C15", schema: B12::schema, a: run::<Span, B12>, b: Some(run::<LineSpan, B12>), root: None },
        Type { name: "C1", props: "C17", schema: C1::schema, a: run::<Span, C1>, b: Some(run::<LineSpan, C1>), root: Some((run_root::<Span, C1>, run_root::<LineSpan, C1>)) },
        Type { name: "C2", props: "C17", schema: C2::schema, a: run::<Span, C2>, b: Some(run::<LineSpan, C2>), root: Some((run_root::<Span, C2>, run_root::<LineSpan, C2>)) },
        Type { name: "C3", props: "C17", schema: C3::schema, a: run::<Span, C3>, b: Some(run::<LineSpan, C3>), root: Some((run_root::<Span, C3>, run_root::<LineSpan, C3>)) },
        Type { name: "C4", props: "C17", schema: C4::schema, a: run::<Span, C4>, b: Some(run::<LineSpan, C4>), root: Some((run_root::<Span, C4>, run_root::<LineSpan, C4>)) },
        Type { name: "C5", props: "C17", schema: C5::schema, a: run::<Span, C5>, b: Some(run::<LineSpan, C5>), root: Some((run_root::<Span, C5>, run_root::<LineSpan, C5>)) },
        Type { name: "C6", props: "C17", schema: C6::schema, a: run::<Span, C6>, b: Some(run::<LineSpan, C6>), root: Some((run_root::<Span, C6>, run_root::<LineSpan, C6>)) },
        Type { name: "C7", props: "C17", schema: C7::schema, a: run::<Span, C7>, b: Some(run::<LineSpan, C7>), root: Some((run_root::<Span, C7>, run_root::<LineSpan, C7>)) },
        Type { name: "C8", props: "C17", schema: C8::schema, a: run::<Span, C8>, b: Some(run::<LineSpan, C8>), root: Some((run_root::<Span, C8>, run_root::<LineSpan, C8>)) },
        Type { name: "C9", props: "C17", schema: C9::schema, a: run::<Span, C9>, b: Some(run::<LineSpan, C9>), root: None },
        Type { name: "C10", props: "C17", schema: C10::schema, a: run::<Span, C10>, b: Some(run::<LineSpan, C10>), root: Some((run_root::<Span, C10>, run_root::<LineSpan, C10>)) },
        Type { name: "C11", props: "C17", schema: C11::schema, a: run::<Span, C11>, b: Some(run::<LineSpan, C11>), root: Some((run_root::<Span, C11>, run_root::<LineSpan, C11>)) },
        Type { name: "C12", props: "C17", schema: C12::schema, a: run::<Span, C12>, b: Some(run::<LineSpan, C12>), root: Some((run_root::<Span, C12>, run_root::<LineSpan, C12>)) },
        Type { name: "C13", props: "C17,C18", schema: C13::schema, a: run::<Span, C13>, b: Some(run::<LineSpan, C13>), root: Some((run_root::<Span, C13>, run_root::<LineSpan, C13>)) },
        Type { name: "C14", props: "C17", schema: C14::schema, a: run::<Span, C14>, b: Some(run::<LineSpan, C14>), root: Some((run_root::<Span, C14>, run_root::<LineSpan, C14>)) },
        Type { name: "F0", props: "C18", schema: F0::schema, a: run::<Span, F0>, b: Some(run::<LineSpan, F0>), root: None },
        Type { name: "F1", props: "C18", schema: F1::schema, a: run::<Span, F1>, b: Some(run::<LineSpan, F1>), root: Some((run_root::<Span, F1>, run_root::<LineSpan, F1>)) },
        Type { name: "F2", props: "C18", schema: F2::schema, a: run::<Span, F2>, b: Some(run::<LineSpan, F2>), root: None },
        Type { name: "F3", props: "C18", schema: F3::schema, a: run::<Span, F3>, b: Some(run::<LineSpan, F3>), root: None },
        Type { name: "F4", props: "C18", schema: F4::schema, a: run::<Span, F4>, b: Some(run::<LineSpan, F4>), root: Some((run_root::<Span, F4>, run_root::<LineSpan, F4>)) },
        Type { name: "F5", props: "C18", schema: F5::schema, a: run::<Span, F5>, b: Some(run::<LineSpan, F5>), root: None },
        Type { name: "G0", props: "C18", schema: G0::schema, a: run::<Span, G0>, b: Some(run::<LineSpan, G0>), root: None },
        Type { name: "G1", props: "C18", schema: G1::schema, a: run::<Span, G1>, b: Some(run::<LineSpan, G1>), root: Some((run_root::<Span, G1>, run_root::<LineSpan, G1>)) },
        Type { name: "G2", props: "C18", schema: G2::schema, a: run::<Span, G2>, b: Some(run::<LineSpan, G2>), root: None },
        Type { name: "G3", props: "C18", schema: G3::schema, a: run::<Span, G3>, b: Some(run::<LineSpan, G3>), root: None },
        Type { name: "G4", props: "C18", schema: G4::schema, a: run::<Span, G4>, b: Some(run::<LineSpan, G4>), root: Some((run_root::<Span, G4>, run_root::<LineSpan, G4>)) },
        Type { name: "G5", props: "C18", schema: G5::schema, a: run::<Span, G5>, b: Some(run::<LineSpan, G5>), root: None },
        Type { name: "G6", props: "C18", schema: G6::schema, a: run::<Span, G6>, b: Some(run::<LineSpan, G6>), root: Some((run_root::<Span, G6>, run_root::<LineSpan, G6>)) },
        Type { name: "G7", props: "C18", schema: G7::schema, a: run::<Span, G7>, b: Some(run::<LineSpan, G7>), root: None },
        Type { name: "G8", props: "C18", schema: G8::schema, a: run::<Span, G8>, b: Some(run::<LineSpan, G8>), root: None },
        Type { name: "F7", props: "C18", schema: F7::schema, a: run::<Span, F7>, b: Some(run::<LineSpan, F7>), root: None },
        Type { name: "G9", props: "C18", schema: G9::schema, a: run::<Span, G9>, b: Some(run::<LineSpan, G9>), root: None },
        Type { name: "F8", props: "C18", schema: F8::schema, a: run::<Span, F8>, b: Some(run::<LineSpan, F8>), root: None },
        Type { name: "G10", props: "C18", schema: G10::schema, a: run::<Span, G10>, b: Some(run::<LineSpan, G10>), root: None },
        Type { name: "G11", props: "C18", schema: G11::schema, a: run::<Span, G11>, b: Some(run::<LineSpan, G11>), root: Some((run_root::<Span, G11>, run_root::<LineSpan, G11>)) },
        Type { name: "S1", props: "C16,C13", schema: S1::schema, a: run::<Span, S1>, b: Some(run::<LineSpan, S1>), root: None },
        Type { name: "S2", props: "C16,C13", schema: S2::schema, a: run::<Span, S2>, b: Some(run::<LineSpan, S2>), root: None },
        Type { name: "S3", props: "C16,C17", schema: S3::schema, a: run::<Span, S3>, b: Some(run::<LineSpan, S3>), root: None },
        Type { name: "S4", props: "C16", schema: S4::schema, a: run::<Span, S4>, b: Some(run::<LineSpan, S4>), root: None },
        Type { name: "S5", props: "C16,C20", schema: S5::schema, a: run::<Span, S5>, b: None, root: None },
        Type { name: "S6", props: "C16,C20", schema: S6::schema, a: run::<Span, S6>, b: None, root: None },
        Type { name: "E1", props: "C19", schema: E1::schema, a: run::<Span, E1>, b: Some(run::<LineSpan, E1>), root: None },
        Type { name: "E2", props: "C19", schema: E2::schema, a: run::<Span, E2>, b: Some(run::<LineSpan, E2>), root: None },
        Type { name: "E3", props: "C19", schema: E3::schema, a: run::<Span, E3>, b: Some(run::<LineSpan, E3>), root: None },
        Type { name: "E4", props: "C19,C17", schema: E4::schema, a: run::<Span, E4>, b: Some(run::<LineSpan, E4>), root: None },
        Type { name: "E4Box", props: "C19", schema: E4Box::schema, a: run::<Span, E4Box>, b: Some(run::<LineSpan, E4Box>), root: None },
        Type { name: "E5", props: "C19", schema: E5::schema, a: run::<Span, E5>, b: Some(run::<LineSpan, E5>), root: None },
        Type { name: "N1", props: "C19", schema: N1::schema, a: run::<Span, N1>, b: Some(run::<LineSpan, N1>), root: None },
        Type { name: "N2", props: "C19", schema: N2::schema, a: run::<Span, N2>, b: Some(run::<LineSpan, N2>), root: None },
        Type { name: "N3", props: "C19", schema: N3::schema, a: run::<Span, N3>, b: Some(run::<LineSpan, N3>), root: None },
        Type { name: "N4", props: "C19", schema: N4::schema, a: run::<Span, N4>, b: Some(run::<LineSpan, N4>), root: None },
        Type { name: "M1", props: "C19", schema: M1::schema, a: run::<Span, M1>, b: Some(run::<LineSpan, M1>), root: Some((run_root::<Span, M1>, run_root::<LineSpan, M1>)) },
        Type { name: "M2", props: "C19", schema: M2::schema, a: run::<Span, M2>, b: Some(run::<LineSpan, M2>), root: Some((run_root::<Span, M2>, run_root::<LineSpan, M2>)) },
    ]
}
