//! Written by tools/gluegen.py. Nothing but the bindings, so that what fails to compile here is what the macro wrote.
#![allow(warnings)]
ethabi_contract::use_contract!(shapes, "abi/shapes.abi");
ethabi_contract::use_contract!(token, "abi/token.abi");
ethabi_contract::use_contract!(wide, "abi/wide.abi");
ethabi_contract::use_contract!(events, "abi/events.abi");
ethabi_contract::use_contract!(odd, "abi/odd.abi");
ethabi_contract::use_contract!(sizes, "abi/sizes.abi");
ethabi_contract::use_contract!(grid, "abi/grid.abi");
