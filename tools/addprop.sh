#!/bin/bash
# Regenerates harness/src/props/mod.rs from the c??.rs files present.
cd "$(dirname "$0")/../harness/src/props" || exit 1
{ echo "use crate::engine::{Ctx, Meta};"; echo "pub mod rules;"; [ -f irc.rs ] && echo "pub mod irc;"; [ -f world.rs ] && echo "pub mod world;"
for f in c??.rs; do echo "pub mod ${f%.rs};"; done
echo; echo "pub type Check = fn(&mut Ctx);"; echo "pub static ALL: &[(Meta, Check)] = &["
for f in c??.rs; do m=${f%.rs}; echo "    ($m::META, $m::run),"; done
echo "];"; echo
echo "pub fn find(id: &str) -> Option<(&'static Meta, Check)> {"
echo "    ALL.iter().find(|m| m.0.id == id).map(|m| (&m.0, m.1))"; echo "}"; } > mod.rs
