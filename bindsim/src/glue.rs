//! Written by tools/gluegen.py: typed calls into the bindings.
use crate::v::{Crit, EvGlue, FnGlue, Abi, V, topics};
use ethabi::FunctionOutputDecoder;
use simcore::mty::{MType, MVal};

mod shapes_fn_address_0 { use super::*; use bindings::shapes::functions::fn_address_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_address_1 { use super::*; use bindings::shapes::functions::fn_address_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Address> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Address> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_address_2 { use super::*; use bindings::shapes::functions::fn_address_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Address; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Address; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_address_3 { use super::*; use bindings::shapes::functions::fn_address_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Address; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Address; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_address_4 { use super::*; use bindings::shapes::functions::fn_address_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Address>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Address>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_address_5 { use super::*; use bindings::shapes::functions::fn_address_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Address; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Address; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_address_6 { use super::*; use bindings::shapes::functions::fn_address_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Address>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Address>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_address_7 { use super::*; use bindings::shapes::functions::fn_address_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Address; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Address; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_address_8 { use super::*; use bindings::shapes::functions::fn_address_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<ethabi::Address>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<ethabi::Address>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes_0 { use super::*; use bindings::shapes::functions::fn_bytes_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<u8> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<u8> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes_1 { use super::*; use bindings::shapes::functions::fn_bytes_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes_2 { use super::*; use bindings::shapes::functions::fn_bytes_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<u8>; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<u8>; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes_3 { use super::*; use bindings::shapes::functions::fn_bytes_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<u8>; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<u8>; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes_4 { use super::*; use bindings::shapes::functions::fn_bytes_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<u8>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<u8>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes_5 { use super::*; use bindings::shapes::functions::fn_bytes_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[Vec<u8>; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[Vec<u8>; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes_6 { use super::*; use bindings::shapes::functions::fn_bytes_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<Vec<u8>>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<Vec<u8>>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes_7 { use super::*; use bindings::shapes::functions::fn_bytes_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[Vec<u8>; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[Vec<u8>; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes_8 { use super::*; use bindings::shapes::functions::fn_bytes_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<Vec<u8>>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<Vec<u8>>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes1_0 { use super::*; use bindings::shapes::functions::fn_bytes1_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes1_1 { use super::*; use bindings::shapes::functions::fn_bytes1_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[u8; 1]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[u8; 1]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes1_2 { use super::*; use bindings::shapes::functions::fn_bytes1_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[u8; 1]; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[u8; 1]; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes1_3 { use super::*; use bindings::shapes::functions::fn_bytes1_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[u8; 1]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[u8; 1]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes1_4 { use super::*; use bindings::shapes::functions::fn_bytes1_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<[u8; 1]>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<[u8; 1]>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes1_5 { use super::*; use bindings::shapes::functions::fn_bytes1_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[[u8; 1]; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[[u8; 1]; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes1_6 { use super::*; use bindings::shapes::functions::fn_bytes1_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<[u8; 1]>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<[u8; 1]>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes1_7 { use super::*; use bindings::shapes::functions::fn_bytes1_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[[u8; 1]; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[[u8; 1]; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes1_8 { use super::*; use bindings::shapes::functions::fn_bytes1_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<[u8; 1]>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<[u8; 1]>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes4_0 { use super::*; use bindings::shapes::functions::fn_bytes4_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 4] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 4] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes4_1 { use super::*; use bindings::shapes::functions::fn_bytes4_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[u8; 4]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[u8; 4]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes4_2 { use super::*; use bindings::shapes::functions::fn_bytes4_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[u8; 4]; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[u8; 4]; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes4_3 { use super::*; use bindings::shapes::functions::fn_bytes4_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[u8; 4]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[u8; 4]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes4_4 { use super::*; use bindings::shapes::functions::fn_bytes4_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<[u8; 4]>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<[u8; 4]>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes4_5 { use super::*; use bindings::shapes::functions::fn_bytes4_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[[u8; 4]; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[[u8; 4]; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes4_6 { use super::*; use bindings::shapes::functions::fn_bytes4_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<[u8; 4]>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<[u8; 4]>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes4_7 { use super::*; use bindings::shapes::functions::fn_bytes4_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[[u8; 4]; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[[u8; 4]; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes4_8 { use super::*; use bindings::shapes::functions::fn_bytes4_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<[u8; 4]>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<[u8; 4]>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes20_0 { use super::*; use bindings::shapes::functions::fn_bytes20_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 20] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 20] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes20_1 { use super::*; use bindings::shapes::functions::fn_bytes20_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[u8; 20]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[u8; 20]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes20_2 { use super::*; use bindings::shapes::functions::fn_bytes20_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[u8; 20]; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[u8; 20]; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes20_3 { use super::*; use bindings::shapes::functions::fn_bytes20_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[u8; 20]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[u8; 20]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes20_4 { use super::*; use bindings::shapes::functions::fn_bytes20_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<[u8; 20]>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<[u8; 20]>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes20_5 { use super::*; use bindings::shapes::functions::fn_bytes20_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[[u8; 20]; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[[u8; 20]; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes20_6 { use super::*; use bindings::shapes::functions::fn_bytes20_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<[u8; 20]>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<[u8; 20]>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes20_7 { use super::*; use bindings::shapes::functions::fn_bytes20_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[[u8; 20]; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[[u8; 20]; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes20_8 { use super::*; use bindings::shapes::functions::fn_bytes20_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<[u8; 20]>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<[u8; 20]>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes32_0 { use super::*; use bindings::shapes::functions::fn_bytes32_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Hash = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Hash = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes32_1 { use super::*; use bindings::shapes::functions::fn_bytes32_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Hash> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Hash> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes32_2 { use super::*; use bindings::shapes::functions::fn_bytes32_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Hash; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Hash; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes32_3 { use super::*; use bindings::shapes::functions::fn_bytes32_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Hash; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Hash; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes32_4 { use super::*; use bindings::shapes::functions::fn_bytes32_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Hash>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Hash>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes32_5 { use super::*; use bindings::shapes::functions::fn_bytes32_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Hash; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Hash; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes32_6 { use super::*; use bindings::shapes::functions::fn_bytes32_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Hash>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Hash>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes32_7 { use super::*; use bindings::shapes::functions::fn_bytes32_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Hash; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Hash; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bytes32_8 { use super::*; use bindings::shapes::functions::fn_bytes32_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<ethabi::Hash>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<ethabi::Hash>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int8_0 { use super::*; use bindings::shapes::functions::fn_int8_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Int = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int8_1 { use super::*; use bindings::shapes::functions::fn_int8_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Int> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Int> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int8_2 { use super::*; use bindings::shapes::functions::fn_int8_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int8_3 { use super::*; use bindings::shapes::functions::fn_int8_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int8_4 { use super::*; use bindings::shapes::functions::fn_int8_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Int>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Int>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int8_5 { use super::*; use bindings::shapes::functions::fn_int8_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Int; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Int; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int8_6 { use super::*; use bindings::shapes::functions::fn_int8_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Int>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Int>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int8_7 { use super::*; use bindings::shapes::functions::fn_int8_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Int; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Int; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int8_8 { use super::*; use bindings::shapes::functions::fn_int8_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<ethabi::Int>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<ethabi::Int>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int256_0 { use super::*; use bindings::shapes::functions::fn_int256_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Int = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int256_1 { use super::*; use bindings::shapes::functions::fn_int256_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Int> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Int> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int256_2 { use super::*; use bindings::shapes::functions::fn_int256_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int256_3 { use super::*; use bindings::shapes::functions::fn_int256_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int256_4 { use super::*; use bindings::shapes::functions::fn_int256_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Int>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Int>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int256_5 { use super::*; use bindings::shapes::functions::fn_int256_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Int; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Int; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int256_6 { use super::*; use bindings::shapes::functions::fn_int256_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Int>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Int>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int256_7 { use super::*; use bindings::shapes::functions::fn_int256_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Int; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Int; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_int256_8 { use super::*; use bindings::shapes::functions::fn_int256_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<ethabi::Int>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<ethabi::Int>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint8_0 { use super::*; use bindings::shapes::functions::fn_uint8_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint8_1 { use super::*; use bindings::shapes::functions::fn_uint8_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint8_2 { use super::*; use bindings::shapes::functions::fn_uint8_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Uint; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Uint; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint8_3 { use super::*; use bindings::shapes::functions::fn_uint8_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Uint; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Uint; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint8_4 { use super::*; use bindings::shapes::functions::fn_uint8_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Uint>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Uint>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint8_5 { use super::*; use bindings::shapes::functions::fn_uint8_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Uint; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Uint; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint8_6 { use super::*; use bindings::shapes::functions::fn_uint8_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Uint>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Uint>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint8_7 { use super::*; use bindings::shapes::functions::fn_uint8_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Uint; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Uint; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint8_8 { use super::*; use bindings::shapes::functions::fn_uint8_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<ethabi::Uint>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<ethabi::Uint>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint64_0 { use super::*; use bindings::shapes::functions::fn_uint64_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint64_1 { use super::*; use bindings::shapes::functions::fn_uint64_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint64_2 { use super::*; use bindings::shapes::functions::fn_uint64_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Uint; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Uint; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint64_3 { use super::*; use bindings::shapes::functions::fn_uint64_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Uint; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Uint; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint64_4 { use super::*; use bindings::shapes::functions::fn_uint64_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Uint>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Uint>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint64_5 { use super::*; use bindings::shapes::functions::fn_uint64_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Uint; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Uint; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint64_6 { use super::*; use bindings::shapes::functions::fn_uint64_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Uint>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Uint>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint64_7 { use super::*; use bindings::shapes::functions::fn_uint64_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Uint; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Uint; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint64_8 { use super::*; use bindings::shapes::functions::fn_uint64_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<ethabi::Uint>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<ethabi::Uint>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint256_0 { use super::*; use bindings::shapes::functions::fn_uint256_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint256_1 { use super::*; use bindings::shapes::functions::fn_uint256_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint256_2 { use super::*; use bindings::shapes::functions::fn_uint256_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Uint; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Uint; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint256_3 { use super::*; use bindings::shapes::functions::fn_uint256_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Uint; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Uint; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint256_4 { use super::*; use bindings::shapes::functions::fn_uint256_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Uint>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Uint>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint256_5 { use super::*; use bindings::shapes::functions::fn_uint256_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Uint; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Uint; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint256_6 { use super::*; use bindings::shapes::functions::fn_uint256_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Uint>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Uint>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint256_7 { use super::*; use bindings::shapes::functions::fn_uint256_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Uint; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Uint; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_uint256_8 { use super::*; use bindings::shapes::functions::fn_uint256_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<ethabi::Uint>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<ethabi::Uint>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bool_0 { use super::*; use bindings::shapes::functions::fn_bool_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bool_1 { use super::*; use bindings::shapes::functions::fn_bool_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<bool> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<bool> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bool_2 { use super::*; use bindings::shapes::functions::fn_bool_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [bool; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [bool; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bool_3 { use super::*; use bindings::shapes::functions::fn_bool_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [bool; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [bool; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bool_4 { use super::*; use bindings::shapes::functions::fn_bool_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<bool>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<bool>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bool_5 { use super::*; use bindings::shapes::functions::fn_bool_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[bool; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[bool; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bool_6 { use super::*; use bindings::shapes::functions::fn_bool_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<bool>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<bool>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bool_7 { use super::*; use bindings::shapes::functions::fn_bool_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[bool; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[bool; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_bool_8 { use super::*; use bindings::shapes::functions::fn_bool_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<bool>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<bool>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_string_0 { use super::*; use bindings::shapes::functions::fn_string_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: String = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: String = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_string_1 { use super::*; use bindings::shapes::functions::fn_string_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<String> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<String> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_string_2 { use super::*; use bindings::shapes::functions::fn_string_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [String; 1] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [String; 1] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_string_3 { use super::*; use bindings::shapes::functions::fn_string_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [String; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [String; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_string_4 { use super::*; use bindings::shapes::functions::fn_string_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<String>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<String>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_string_5 { use super::*; use bindings::shapes::functions::fn_string_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[String; 2]> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[String; 2]> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_string_6 { use super::*; use bindings::shapes::functions::fn_string_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<String>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<String>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_string_7 { use super::*; use bindings::shapes::functions::fn_string_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[String; 2]; 3] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[String; 2]; 3] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod shapes_fn_string_8 { use super::*; use bindings::shapes::functions::fn_string_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<Vec<String>>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<Vec<String>>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
fn shapes_ctor(code: Vec<u8>, a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); bindings::shapes::constructor(code, x0, x1) }
fn token_ctor(code: Vec<u8>, a: &[MVal]) -> Vec<u8> { let x0: String = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: Vec<ethabi::Address> = V::from_m(&a[3]); bindings::token::constructor(code, x0, x1, x2, x3) }
mod token_balance_of { use super::*; use bindings::token::functions::balance_of as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod token_transfer { use super::*; use bindings::token::functions::transfer as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod token_transfer_from { use super::*; use bindings::token::functions::transfer_from as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod token_total_supply { use super::*; use bindings::token::functions::total_supply as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod token_name { use super::*; use bindings::token::functions::name as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod token_get_reserves { use super::*; use bindings::token::functions::get_reserves as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod token_set_data { use super::*; use bindings::token::functions::set_data as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod token_safe_batch_transfer_from { use super::*; use bindings::token::functions::safe_batch_transfer_from as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: Vec<ethabi::Uint> = V::from_m(&a[2]); let x3: Vec<ethabi::Uint> = V::from_m(&a[3]); let x4: Vec<u8> = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: Vec<ethabi::Uint> = V::from_m(&a[2]); let x3: Vec<ethabi::Uint> = V::from_m(&a[3]); let x4: Vec<u8> = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod token_balance_of_batch { use super::*; use bindings::token::functions::balance_of_batch as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Address> = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Address> = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod token_multicall { use super::*; use bindings::token::functions::multicall as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod token_supports_interface { use super::*; use bindings::token::functions::supports_interface as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 4] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 4] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod token_permit { use super::*; use bindings::token::functions::permit as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: ethabi::Uint = V::from_m(&a[4]); let x5: ethabi::Hash = V::from_m(&a[5]); let x6: ethabi::Hash = V::from_m(&a[6]); b::encode_input(x0, x1, x2, x3, x4, x5, x6) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: ethabi::Uint = V::from_m(&a[4]); let x5: ethabi::Hash = V::from_m(&a[5]); let x6: ethabi::Hash = V::from_m(&a[6]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod token_ev_transfer { use super::*; use bindings::token::events::transfer as b; use bindings::token::logs::Transfer as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0]), topics::<ethabi::Address>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.from.to_m(&t[0]), r.to.to_m(&t[1]), r.value.to_m(&t[2])]) }
}
mod token_ev_approval { use super::*; use bindings::token::events::approval as b; use bindings::token::logs::Approval as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0]), topics::<ethabi::Address>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.owner.to_m(&t[0]), r.spender.to_m(&t[1]), r.value.to_m(&t[2])]) }
}
mod token_ev_transfer_batch { use super::*; use bindings::token::events::transfer_batch as b; use bindings::token::logs::TransferBatch as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0]), topics::<ethabi::Address>(&c[1]), topics::<ethabi::Address>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.operator.to_m(&t[0]), r.from.to_m(&t[1]), r.to.to_m(&t[2]), r.ids.to_m(&t[3]), r.values.to_m(&t[4])]) }
}
mod token_ev_name_registered { use super::*; use bindings::token::events::name_registered as b; use bindings::token::logs::NameRegistered as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<ethabi::Hash>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.name.to_m(&t[0]), r.label.to_m(&t[1]), r.expires.to_m(&t[2])]) }
}
mod wide_omega_kappa_0 { use super::*; use bindings::wide::functions::omega_kappa_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Address; 1]; 2] = V::from_m(&a[0]); let x1: [[ethabi::Int; 1]; 2] = V::from_m(&a[1]); let x2: Vec<ethabi::Address> = V::from_m(&a[2]); let x3: [u8; 4] = V::from_m(&a[3]); let x4: [u8; 1] = V::from_m(&a[4]); let x5: [u8; 20] = V::from_m(&a[5]); let x6: Vec<ethabi::Uint> = V::from_m(&a[6]); b::encode_input(x0, x1, x2, x3, x4, x5, x6) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Address; 1]; 2] = V::from_m(&a[0]); let x1: [[ethabi::Int; 1]; 2] = V::from_m(&a[1]); let x2: Vec<ethabi::Address> = V::from_m(&a[2]); let x3: [u8; 4] = V::from_m(&a[3]); let x4: [u8; 1] = V::from_m(&a[4]); let x5: [u8; 20] = V::from_m(&a[5]); let x6: Vec<ethabi::Uint> = V::from_m(&a[6]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod wide_delta_gamma_no1 { use super::*; use bindings::wide::functions::delta_gamma_no1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Int>> = V::from_m(&a[1]); let x2: Vec<Vec<String>> = V::from_m(&a[2]); let x3: [ethabi::Hash; 2] = V::from_m(&a[3]); let x4: Vec<[ethabi::Address; 3]> = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Int>> = V::from_m(&a[1]); let x2: Vec<Vec<String>> = V::from_m(&a[2]); let x3: [ethabi::Hash; 2] = V::from_m(&a[3]); let x4: Vec<[ethabi::Address; 3]> = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod wide_omega_sigma_2 { use super::*; use bindings::wide::functions::omega_sigma_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<bool>; 2] = V::from_m(&a[0]); let x1: [[ethabi::Uint; 1]; 2] = V::from_m(&a[1]); let x2: [u8; 1] = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<bool>; 2] = V::from_m(&a[0]); let x1: [[ethabi::Uint; 1]; 2] = V::from_m(&a[1]); let x2: [u8; 1] = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod wide_zeta_omega_no3 { use super::*; use bindings::wide::functions::zeta_omega_no3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); let x1: [Vec<ethabi::Int>; 2] = V::from_m(&a[1]); let x2: bool = V::from_m(&a[2]); let x3: Vec<u8> = V::from_m(&a[3]); let x4: String = V::from_m(&a[4]); let x5: Vec<Vec<[u8; 1]>> = V::from_m(&a[5]); b::encode_input(x0, x1, x2, x3, x4, x5) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); let x1: [Vec<ethabi::Int>; 2] = V::from_m(&a[1]); let x2: bool = V::from_m(&a[2]); let x3: Vec<u8> = V::from_m(&a[3]); let x4: String = V::from_m(&a[4]); let x5: Vec<Vec<[u8; 1]>> = V::from_m(&a[5]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) })) }
}
mod wide_delta_gamma_4 { use super::*; use bindings::wide::functions::delta_gamma_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 4] = V::from_m(&a[0]); let x1: [[u8; 20]; 2] = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 4] = V::from_m(&a[0]); let x1: [[u8; 20]; 2] = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod wide_zeta_beta_no5 { use super::*; use bindings::wide::functions::zeta_beta_no5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[u8; 4]> = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: Vec<Vec<ethabi::Int>> = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[u8; 4]> = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: Vec<Vec<ethabi::Int>> = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod wide_alpha_sigma_6 { use super::*; use bindings::wide::functions::alpha_sigma_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: [Vec<bool>; 2] = V::from_m(&a[1]); let x2: [[ethabi::Address; 1]; 2] = V::from_m(&a[2]); let x3: [[[u8; 4]; 1]; 2] = V::from_m(&a[3]); let x4: [ethabi::Hash; 2] = V::from_m(&a[4]); let x5: Vec<u8> = V::from_m(&a[5]); b::encode_input(x0, x1, x2, x3, x4, x5) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: [Vec<bool>; 2] = V::from_m(&a[1]); let x2: [[ethabi::Address; 1]; 2] = V::from_m(&a[2]); let x3: [[[u8; 4]; 1]; 2] = V::from_m(&a[3]); let x4: [ethabi::Hash; 2] = V::from_m(&a[4]); let x5: Vec<u8> = V::from_m(&a[5]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod wide_omega_sigma_no7 { use super::*; use bindings::wide::functions::omega_sigma_no7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Uint; 1]; 2] = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Uint>> = V::from_m(&a[1]); let x2: Vec<[Vec<u8>; 3]> = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Uint; 1]; 2] = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Uint>> = V::from_m(&a[1]); let x2: Vec<[Vec<u8>; 3]> = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod wide_gamma_zeta_8 { use super::*; use bindings::wide::functions::gamma_zeta_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod wide_beta_kappa_no9 { use super::*; use bindings::wide::functions::beta_kappa_no9 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Hash; 2] = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Hash; 2] = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod wide_beta_zeta_10 { use super::*; use bindings::wide::functions::beta_zeta_10 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Int>> = V::from_m(&a[0]); let x1: [u8; 4] = V::from_m(&a[1]); let x2: Vec<ethabi::Uint> = V::from_m(&a[2]); let x3: [u8; 20] = V::from_m(&a[3]); let x4: ethabi::Hash = V::from_m(&a[4]); let x5: [Vec<ethabi::Address>; 2] = V::from_m(&a[5]); b::encode_input(x0, x1, x2, x3, x4, x5) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Int>> = V::from_m(&a[0]); let x1: [u8; 4] = V::from_m(&a[1]); let x2: Vec<ethabi::Uint> = V::from_m(&a[2]); let x3: [u8; 20] = V::from_m(&a[3]); let x4: ethabi::Hash = V::from_m(&a[4]); let x5: [Vec<ethabi::Address>; 2] = V::from_m(&a[5]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod wide_sigma_delta_no11 { use super::*; use bindings::wide::functions::sigma_delta_no11 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Address> = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: Vec<[String; 3]> = V::from_m(&a[2]); let x3: String = V::from_m(&a[3]); let x4: Vec<[u8; 4]> = V::from_m(&a[4]); let x5: Vec<u8> = V::from_m(&a[5]); b::encode_input(x0, x1, x2, x3, x4, x5) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Address> = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: Vec<[String; 3]> = V::from_m(&a[2]); let x3: String = V::from_m(&a[3]); let x4: Vec<[u8; 4]> = V::from_m(&a[4]); let x5: Vec<u8> = V::from_m(&a[5]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod wide_gamma_alpha_12 { use super::*; use bindings::wide::functions::gamma_alpha_12 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: Vec<u8> = V::from_m(&a[2]); let x3: [[ethabi::Hash; 1]; 2] = V::from_m(&a[3]); let x4: ethabi::Int = V::from_m(&a[4]); let x5: Vec<Vec<String>> = V::from_m(&a[5]); b::encode_input(x0, x1, x2, x3, x4, x5) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: Vec<u8> = V::from_m(&a[2]); let x3: [[ethabi::Hash; 1]; 2] = V::from_m(&a[3]); let x4: ethabi::Int = V::from_m(&a[4]); let x5: Vec<Vec<String>> = V::from_m(&a[5]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod wide_beta_alpha_no13 { use super::*; use bindings::wide::functions::beta_alpha_no13 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Address; 2] = V::from_m(&a[0]); let x1: Vec<ethabi::Address> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: Vec<bool> = V::from_m(&a[3]); let x4: [u8; 20] = V::from_m(&a[4]); let x5: [u8; 1] = V::from_m(&a[5]); let x6: [u8; 4] = V::from_m(&a[6]); b::encode_input(x0, x1, x2, x3, x4, x5, x6) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Address; 2] = V::from_m(&a[0]); let x1: Vec<ethabi::Address> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: Vec<bool> = V::from_m(&a[3]); let x4: [u8; 20] = V::from_m(&a[4]); let x5: [u8; 1] = V::from_m(&a[5]); let x6: [u8; 4] = V::from_m(&a[6]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) })) }
}
mod wide_delta_sigma_14 { use super::*; use bindings::wide::functions::delta_sigma_14 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Uint; 3]> = V::from_m(&a[0]); let x1: [u8; 20] = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Uint; 3]> = V::from_m(&a[0]); let x1: [u8; 20] = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod wide_omega_delta_no15 { use super::*; use bindings::wide::functions::omega_delta_no15 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Address>; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Address>; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod wide_gamma_kappa_16 { use super::*; use bindings::wide::functions::gamma_kappa_16 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[[u8; 1]; 1]; 2] = V::from_m(&a[0]); let x1: [Vec<[u8; 4]>; 2] = V::from_m(&a[1]); let x2: Vec<ethabi::Uint> = V::from_m(&a[2]); let x3: [[bool; 1]; 2] = V::from_m(&a[3]); b::encode_input(x0, x1, x2, x3) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[[u8; 1]; 1]; 2] = V::from_m(&a[0]); let x1: [Vec<[u8; 4]>; 2] = V::from_m(&a[1]); let x2: Vec<ethabi::Uint> = V::from_m(&a[2]); let x3: [[bool; 1]; 2] = V::from_m(&a[3]); let (d, k) = b::call(x0, x1, x2, x3); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod wide_delta_beta_no17 { use super::*; use bindings::wide::functions::delta_beta_no17 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[ethabi::Uint; 1]; 2] = V::from_m(&a[0]); let x1: Vec<[Vec<u8>; 3]> = V::from_m(&a[1]); let x2: [[ethabi::Uint; 1]; 2] = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[ethabi::Uint; 1]; 2] = V::from_m(&a[0]); let x1: Vec<[Vec<u8>; 3]> = V::from_m(&a[1]); let x2: [[ethabi::Uint; 1]; 2] = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod wide_kappa_delta_18 { use super::*; use bindings::wide::functions::kappa_delta_18 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<bool>> = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: [[ethabi::Uint; 1]; 2] = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [[u8; 4]; 2] = V::from_m(&a[4]); let x5: Vec<Vec<ethabi::Uint>> = V::from_m(&a[5]); b::encode_input(x0, x1, x2, x3, x4, x5) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<bool>> = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: [[ethabi::Uint; 1]; 2] = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [[u8; 4]; 2] = V::from_m(&a[4]); let x5: Vec<Vec<ethabi::Uint>> = V::from_m(&a[5]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod wide_kappa_zeta_no19 { use super::*; use bindings::wide::functions::kappa_zeta_no19 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 20] = V::from_m(&a[0]); let x1: [[ethabi::Uint; 1]; 2] = V::from_m(&a[1]); let x2: Vec<[String; 3]> = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 20] = V::from_m(&a[0]); let x1: [[ethabi::Uint; 1]; 2] = V::from_m(&a[1]); let x2: Vec<[String; 3]> = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod wide_alpha_zeta_20 { use super::*; use bindings::wide::functions::alpha_zeta_20 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod wide_omega_zeta_no21 { use super::*; use bindings::wide::functions::omega_zeta_no21 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 1] = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 1] = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod wide_omega_kappa_22 { use super::*; use bindings::wide::functions::omega_kappa_22 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod wide_zeta_omega_no23 { use super::*; use bindings::wide::functions::zeta_omega_no23 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 20] = V::from_m(&a[0]); let x1: [u8; 20] = V::from_m(&a[1]); let x2: [u8; 20] = V::from_m(&a[2]); let x3: [Vec<[u8; 4]>; 2] = V::from_m(&a[3]); let x4: [u8; 20] = V::from_m(&a[4]); let x5: [ethabi::Uint; 2] = V::from_m(&a[5]); b::encode_input(x0, x1, x2, x3, x4, x5) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 20] = V::from_m(&a[0]); let x1: [u8; 20] = V::from_m(&a[1]); let x2: [u8; 20] = V::from_m(&a[2]); let x3: [Vec<[u8; 4]>; 2] = V::from_m(&a[3]); let x4: [u8; 20] = V::from_m(&a[4]); let x5: [ethabi::Uint; 2] = V::from_m(&a[5]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) })) }
}
mod wide_beta_omega_24 { use super::*; use bindings::wide::functions::beta_omega_24 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Hash>> = V::from_m(&a[0]); let x1: Vec<[[u8; 20]; 3]> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: [[[u8; 4]; 1]; 2] = V::from_m(&a[3]); b::encode_input(x0, x1, x2, x3) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Hash>> = V::from_m(&a[0]); let x1: Vec<[[u8; 20]; 3]> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: [[[u8; 4]; 1]; 2] = V::from_m(&a[3]); let (d, k) = b::call(x0, x1, x2, x3); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) })) }
}
mod wide_omega_delta_no25 { use super::*; use bindings::wide::functions::omega_delta_no25 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 20] = V::from_m(&a[0]); let x1: [[ethabi::Uint; 1]; 2] = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 20] = V::from_m(&a[0]); let x1: [[ethabi::Uint; 1]; 2] = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) })) }
}
mod wide_delta_beta_26 { use super::*; use bindings::wide::functions::delta_beta_26 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod wide_alpha_zeta_no27 { use super::*; use bindings::wide::functions::alpha_zeta_no27 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Uint>; 2] = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: Vec<[u8; 4]> = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Uint>; 2] = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: Vec<[u8; 4]> = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod wide_gamma_zeta_28 { use super::*; use bindings::wide::functions::gamma_zeta_28 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<u8> = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let x2: [[bool; 1]; 2] = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<u8> = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let x2: [[bool; 1]; 2] = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod wide_beta_alpha_no29 { use super::*; use bindings::wide::functions::beta_alpha_no29 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<String> = V::from_m(&a[0]); let x1: Vec<[ethabi::Uint; 3]> = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); let x3: [u8; 4] = V::from_m(&a[3]); b::encode_input(x0, x1, x2, x3) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<String> = V::from_m(&a[0]); let x1: Vec<[ethabi::Uint; 3]> = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); let x3: [u8; 4] = V::from_m(&a[3]); let (d, k) = b::call(x0, x1, x2, x3); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod wide_sigma_zeta_30 { use super::*; use bindings::wide::functions::sigma_zeta_30 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Hash; 3]> = V::from_m(&a[0]); let x1: Vec<Vec<[u8; 4]>> = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Hash; 3]> = V::from_m(&a[0]); let x1: Vec<Vec<[u8; 4]>> = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) })) }
}
mod wide_alpha_gamma_no31 { use super::*; use bindings::wide::functions::alpha_gamma_no31 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<bool>; 2] = V::from_m(&a[0]); let x1: [[u8; 20]; 2] = V::from_m(&a[1]); let x2: Vec<[ethabi::Hash; 3]> = V::from_m(&a[2]); let x3: [[u8; 4]; 2] = V::from_m(&a[3]); let x4: [Vec<ethabi::Address>; 2] = V::from_m(&a[4]); let x5: Vec<ethabi::Uint> = V::from_m(&a[5]); let x6: [Vec<ethabi::Uint>; 2] = V::from_m(&a[6]); b::encode_input(x0, x1, x2, x3, x4, x5, x6) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<bool>; 2] = V::from_m(&a[0]); let x1: [[u8; 20]; 2] = V::from_m(&a[1]); let x2: Vec<[ethabi::Hash; 3]> = V::from_m(&a[2]); let x3: [[u8; 4]; 2] = V::from_m(&a[3]); let x4: [Vec<ethabi::Address>; 2] = V::from_m(&a[4]); let x5: Vec<ethabi::Uint> = V::from_m(&a[5]); let x6: [Vec<ethabi::Uint>; 2] = V::from_m(&a[6]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) })) }
}
mod wide_zeta_sigma_32 { use super::*; use bindings::wide::functions::zeta_sigma_32 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 4] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 4] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod wide_sigma_delta_no33 { use super::*; use bindings::wide::functions::sigma_delta_no33 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[Vec<u8>; 1]; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[Vec<u8>; 1]; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod wide_beta_sigma_34 { use super::*; use bindings::wide::functions::beta_sigma_34 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3])] }) })) }
}
mod wide_alpha_sigma_no35 { use super::*; use bindings::wide::functions::alpha_sigma_no35 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod wide_zeta_sigma_36 { use super::*; use bindings::wide::functions::zeta_sigma_36 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<ethabi::Int>; 2] = V::from_m(&a[0]); let x1: [ethabi::Uint; 2] = V::from_m(&a[1]); let x2: [[Vec<u8>; 1]; 2] = V::from_m(&a[2]); let x3: String = V::from_m(&a[3]); let x4: ethabi::Hash = V::from_m(&a[4]); let x5: Vec<Vec<ethabi::Hash>> = V::from_m(&a[5]); let x6: [[String; 1]; 2] = V::from_m(&a[6]); b::encode_input(x0, x1, x2, x3, x4, x5, x6) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<ethabi::Int>; 2] = V::from_m(&a[0]); let x1: [ethabi::Uint; 2] = V::from_m(&a[1]); let x2: [[Vec<u8>; 1]; 2] = V::from_m(&a[2]); let x3: String = V::from_m(&a[3]); let x4: ethabi::Hash = V::from_m(&a[4]); let x5: Vec<Vec<ethabi::Hash>> = V::from_m(&a[5]); let x6: [[String; 1]; 2] = V::from_m(&a[6]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod wide_gamma_sigma_no37 { use super::*; use bindings::wide::functions::gamma_sigma_no37 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<u8>; 2] = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Hash>> = V::from_m(&a[1]); let x2: [[ethabi::Int; 1]; 2] = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<u8>; 2] = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Hash>> = V::from_m(&a[1]); let x2: [[ethabi::Int; 1]; 2] = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) })) }
}
mod wide_gamma_alpha_38 { use super::*; use bindings::wide::functions::gamma_alpha_38 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Hash> = V::from_m(&a[0]); let x1: [Vec<[u8; 1]>; 2] = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Hash> = V::from_m(&a[0]); let x1: [Vec<[u8; 1]>; 2] = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) })) }
}
mod wide_beta_sigma_no39 { use super::*; use bindings::wide::functions::beta_sigma_no39 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); let x1: [u8; 4] = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); let x3: Vec<[bool; 3]> = V::from_m(&a[3]); let x4: [u8; 20] = V::from_m(&a[4]); let x5: Vec<Vec<[u8; 20]>> = V::from_m(&a[5]); b::encode_input(x0, x1, x2, x3, x4, x5) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Int = V::from_m(&a[0]); let x1: [u8; 4] = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); let x3: Vec<[bool; 3]> = V::from_m(&a[3]); let x4: [u8; 20] = V::from_m(&a[4]); let x5: Vec<Vec<[u8; 20]>> = V::from_m(&a[5]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5])] }) })) }
}
fn wide_ctor(code: Vec<u8>, a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<[bool; 3]> = V::from_m(&a[1]); let x2: Vec<ethabi::Uint> = V::from_m(&a[2]); let x3: Vec<Vec<ethabi::Int>> = V::from_m(&a[3]); let x4: Vec<Vec<ethabi::Address>> = V::from_m(&a[4]); let x5: Vec<u8> = V::from_m(&a[5]); bindings::wide::constructor(code, x0, x1, x2, x3, x4, x5) }
mod events_ev_alpha_beta { use super::*; use bindings::events::events::alpha_beta as b; use bindings::events::logs::AlphaBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_alpha_gamma { use super::*; use bindings::events::events::alpha_gamma as b; use bindings::events::logs::AlphaGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Address>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_alpha_delta { use super::*; use bindings::events::events::alpha_delta as b; use bindings::events::logs::AlphaDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Address; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_alpha_kappa { use super::*; use bindings::events::events::alpha_kappa as b; use bindings::events::logs::AlphaKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<ethabi::Address>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_alpha_sigma { use super::*; use bindings::events::events::alpha_sigma as b; use bindings::events::logs::AlphaSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<u8>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_alpha_omega { use super::*; use bindings::events::events::alpha_omega as b; use bindings::events::logs::AlphaOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_alpha_zeta { use super::*; use bindings::events::events::alpha_zeta as b; use bindings::events::logs::AlphaZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<u8>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_beta_alpha { use super::*; use bindings::events::events::beta_alpha as b; use bindings::events::logs::BetaAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<Vec<u8>>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_beta_gamma { use super::*; use bindings::events::events::beta_gamma as b; use bindings::events::logs::BetaGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[u8; 1]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_beta_delta { use super::*; use bindings::events::events::beta_delta as b; use bindings::events::logs::BetaDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[u8; 1]>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_beta_kappa { use super::*; use bindings::events::events::beta_kappa as b; use bindings::events::logs::BetaKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[u8; 1]; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_beta_sigma { use super::*; use bindings::events::events::beta_sigma as b; use bindings::events::logs::BetaSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<[u8; 1]>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_beta_omega { use super::*; use bindings::events::events::beta_omega as b; use bindings::events::logs::BetaOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[u8; 4]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_beta_zeta { use super::*; use bindings::events::events::beta_zeta as b; use bindings::events::logs::BetaZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[u8; 4]>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_gamma_alpha { use super::*; use bindings::events::events::gamma_alpha as b; use bindings::events::logs::GammaAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[u8; 4]; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_gamma_beta { use super::*; use bindings::events::events::gamma_beta as b; use bindings::events::logs::GammaBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<[u8; 4]>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_gamma_delta { use super::*; use bindings::events::events::gamma_delta as b; use bindings::events::logs::GammaDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[u8; 20]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_gamma_kappa { use super::*; use bindings::events::events::gamma_kappa as b; use bindings::events::logs::GammaKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[u8; 20]>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_gamma_sigma { use super::*; use bindings::events::events::gamma_sigma as b; use bindings::events::logs::GammaSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[u8; 20]; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_gamma_omega { use super::*; use bindings::events::events::gamma_omega as b; use bindings::events::logs::GammaOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<[u8; 20]>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_gamma_zeta { use super::*; use bindings::events::events::gamma_zeta as b; use bindings::events::logs::GammaZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_delta_alpha { use super::*; use bindings::events::events::delta_alpha as b; use bindings::events::logs::DeltaAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Hash>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_delta_beta { use super::*; use bindings::events::events::delta_beta as b; use bindings::events::logs::DeltaBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Hash; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_delta_gamma { use super::*; use bindings::events::events::delta_gamma as b; use bindings::events::logs::DeltaGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<ethabi::Hash>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_delta_kappa { use super::*; use bindings::events::events::delta_kappa as b; use bindings::events::logs::DeltaKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_delta_sigma { use super::*; use bindings::events::events::delta_sigma as b; use bindings::events::logs::DeltaSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Int>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_delta_omega { use super::*; use bindings::events::events::delta_omega as b; use bindings::events::logs::DeltaOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Int; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_delta_zeta { use super::*; use bindings::events::events::delta_zeta as b; use bindings::events::logs::DeltaZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<ethabi::Int>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_kappa_alpha { use super::*; use bindings::events::events::kappa_alpha as b; use bindings::events::logs::KappaAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_kappa_beta { use super::*; use bindings::events::events::kappa_beta as b; use bindings::events::logs::KappaBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Int>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_kappa_gamma { use super::*; use bindings::events::events::kappa_gamma as b; use bindings::events::logs::KappaGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Int; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_kappa_delta { use super::*; use bindings::events::events::kappa_delta as b; use bindings::events::logs::KappaDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<ethabi::Int>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_kappa_sigma { use super::*; use bindings::events::events::kappa_sigma as b; use bindings::events::logs::KappaSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_kappa_omega { use super::*; use bindings::events::events::kappa_omega as b; use bindings::events::logs::KappaOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Uint>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_kappa_zeta { use super::*; use bindings::events::events::kappa_zeta as b; use bindings::events::logs::KappaZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Uint; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_sigma_alpha { use super::*; use bindings::events::events::sigma_alpha as b; use bindings::events::logs::SigmaAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<ethabi::Uint>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_sigma_beta { use super::*; use bindings::events::events::sigma_beta as b; use bindings::events::logs::SigmaBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_sigma_gamma { use super::*; use bindings::events::events::sigma_gamma as b; use bindings::events::logs::SigmaGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Uint>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_sigma_delta { use super::*; use bindings::events::events::sigma_delta as b; use bindings::events::logs::SigmaDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Uint; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_sigma_kappa { use super::*; use bindings::events::events::sigma_kappa as b; use bindings::events::logs::SigmaKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<ethabi::Uint>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_sigma_omega { use super::*; use bindings::events::events::sigma_omega as b; use bindings::events::logs::SigmaOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_sigma_zeta { use super::*; use bindings::events::events::sigma_zeta as b; use bindings::events::logs::SigmaZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Uint>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_omega_alpha { use super::*; use bindings::events::events::omega_alpha as b; use bindings::events::logs::OmegaAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Uint; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_omega_beta { use super::*; use bindings::events::events::omega_beta as b; use bindings::events::logs::OmegaBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<ethabi::Uint>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_omega_gamma { use super::*; use bindings::events::events::omega_gamma as b; use bindings::events::logs::OmegaGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<bool>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_omega_delta { use super::*; use bindings::events::events::omega_delta as b; use bindings::events::logs::OmegaDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<bool>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_omega_kappa { use super::*; use bindings::events::events::omega_kappa as b; use bindings::events::logs::OmegaKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_omega_sigma { use super::*; use bindings::events::events::omega_sigma as b; use bindings::events::logs::OmegaSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<bool>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_omega_zeta { use super::*; use bindings::events::events::omega_zeta as b; use bindings::events::logs::OmegaZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_zeta_alpha { use super::*; use bindings::events::events::zeta_alpha as b; use bindings::events::logs::ZetaAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<String>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_zeta_beta { use super::*; use bindings::events::events::zeta_beta as b; use bindings::events::logs::ZetaBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[String; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_zeta_gamma { use super::*; use bindings::events::events::zeta_gamma as b; use bindings::events::logs::ZetaGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<String>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.v.to_m(&t[0]), r.w.to_m(&t[1])]) }
}
mod events_ev_alpha_to_alpha { use super::*; use bindings::events::events::alpha_to_alpha as b; use bindings::events::logs::AlphaToAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[bool; 3]>>(&c[0]), topics::<ethabi::Uint>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.new_owner.to_m(&t[0]), r.idx.to_m(&t[1]), r.param2.to_m(&t[2]), r.topic3.to_m(&t[3]), r.amount.to_m(&t[4]), r.kind_of.to_m(&t[5])]) }
}
mod events_ev_alpha_to_beta { use super::*; use bindings::events::events::alpha_to_beta as b; use bindings::events::logs::AlphaToBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![]) }
}
mod events_ev_alpha_to_gamma { use super::*; use bindings::events::events::alpha_to_gamma as b; use bindings::events::logs::AlphaToGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0]), topics::<Vec<ethabi::Int>>(&c[1]), topics::<[ethabi::Uint; 2]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.to.to_m(&t[0]), r.amount.to_m(&t[1]), r.new_owner.to_m(&t[2]), r.topic3.to_m(&t[3]), r.snake_name.to_m(&t[4])]) }
}
mod events_ev_alpha_to_delta { use super::*; use bindings::events::events::alpha_to_delta as b; use bindings::events::logs::AlphaToDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.who.to_m(&t[0])]) }
}
mod events_ev_alpha_to_kappa { use super::*; use bindings::events::events::alpha_to_kappa as b; use bindings::events::logs::AlphaToKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[ethabi::Int; 1]; 2]>(&c[0]), topics::<[[ethabi::Uint; 1]; 2]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.dead_line2.to_m(&t[0]), r.idx.to_m(&t[1]), r.amount.to_m(&t[2]), r.new_owner.to_m(&t[3]), r.data_hash.to_m(&t[4]), r.to.to_m(&t[5])]) }
}
mod events_ev_alpha_to_sigma { use super::*; use bindings::events::events::alpha_to_sigma as b; use bindings::events::logs::AlphaToSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<ethabi::Hash>; 2]>(&c[0]), topics::<[[u8; 1]; 2]>(&c[1]), topics::<ethabi::Hash>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.who.to_m(&t[0]), r.dead_line2.to_m(&t[1]), r.param2.to_m(&t[2]), r.to.to_m(&t[3]), r.kind_of.to_m(&t[4]), r.snake_name.to_m(&t[5])]) }
}
mod events_ev_alpha_to_omega { use super::*; use bindings::events::events::alpha_to_omega as b; use bindings::events::logs::AlphaToOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[u8; 1]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.amount.to_m(&t[0]), r.topic1.to_m(&t[1]), r.x.to_m(&t[2])]) }
}
mod events_ev_alpha_to_zeta { use super::*; use bindings::events::events::alpha_to_zeta as b; use bindings::events::logs::AlphaToZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[ethabi::Uint; 1]; 2]>(&c[0]), topics::<Vec<ethabi::Int>>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.idx.to_m(&t[0]), r.x.to_m(&t[1]), r.data_hash.to_m(&t[2]), r.amount.to_m(&t[3])]) }
}
mod events_ev_beta_to_alpha { use super::*; use bindings::events::events::beta_to_alpha as b; use bindings::events::logs::BetaToAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[ethabi::Int; 3]>>(&c[0]), topics::<[[u8; 20]; 2]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.data_hash.to_m(&t[0]), r.to.to_m(&t[1])]) }
}
mod events_ev_beta_to_beta { use super::*; use bindings::events::events::beta_to_beta as b; use bindings::events::logs::BetaToBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[ethabi::Int; 3]>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.kind_of.to_m(&t[0]), r.idx.to_m(&t[1])]) }
}
mod events_ev_beta_to_gamma { use super::*; use bindings::events::events::beta_to_gamma as b; use bindings::events::logs::BetaToGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<ethabi::Int>>>(&c[0]), topics::<Vec<[ethabi::Int; 3]>>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.to.to_m(&t[0]), r.new_owner.to_m(&t[1]), r.amount.to_m(&t[2])]) }
}
mod events_ev_beta_to_delta { use super::*; use bindings::events::events::beta_to_delta as b; use bindings::events::logs::BetaToDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[u8; 4]>(&c[0]), topics::<Vec<ethabi::Uint>>(&c[1]), topics::<[Vec<ethabi::Hash>; 2]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.idx.to_m(&t[0]), r.who.to_m(&t[1]), r.dead_line2.to_m(&t[2]), r.new_owner.to_m(&t[3]), r.snake_name.to_m(&t[4]), r.data_hash.to_m(&t[5])]) }
}
mod events_ev_beta_to_kappa { use super::*; use bindings::events::events::beta_to_kappa as b; use bindings::events::logs::BetaToKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[ethabi::Uint; 3]>>(&c[0]), topics::<ethabi::Int>(&c[1]), topics::<[Vec<[u8; 20]>; 2]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.who.to_m(&t[0]), r.dead_line2.to_m(&t[1]), r.amount.to_m(&t[2]), r.idx.to_m(&t[3]), r.snake_name.to_m(&t[4])]) }
}
mod events_ev_beta_to_sigma { use super::*; use bindings::events::events::beta_to_sigma as b; use bindings::events::logs::BetaToSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Uint; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.who.to_m(&t[1]), r.topic2.to_m(&t[2]), r.x.to_m(&t[3])]) }
}
mod events_ev_beta_to_omega { use super::*; use bindings::events::events::beta_to_omega as b; use bindings::events::logs::BetaToOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[u8; 4]>(&c[0]), topics::<[[[u8; 20]; 1]; 2]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.x.to_m(&t[0]), r.dead_line2.to_m(&t[1]), r.idx.to_m(&t[2]), r.who.to_m(&t[3]), r.param4.to_m(&t[4])]) }
}
mod events_ev_beta_to_zeta { use super::*; use bindings::events::events::beta_to_zeta as b; use bindings::events::logs::BetaToZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0]), topics::<[Vec<ethabi::Int>; 2]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.snake_name.to_m(&t[0]), r.to.to_m(&t[1]), r.dead_line2.to_m(&t[2]), r.data_hash.to_m(&t[3])]) }
}
mod events_ev_gamma_to_alpha { use super::*; use bindings::events::events::gamma_to_alpha as b; use bindings::events::logs::GammaToAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.idx.to_m(&t[0]), r.param1.to_m(&t[1])]) }
}
mod events_ev_gamma_to_beta { use super::*; use bindings::events::events::gamma_to_beta as b; use bindings::events::logs::GammaToBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[u8; 20]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.amount.to_m(&t[0])]) }
}
mod events_ev_gamma_to_gamma { use super::*; use bindings::events::events::gamma_to_gamma as b; use bindings::events::logs::GammaToGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<ethabi::Uint>; 2]>(&c[0]), topics::<[[ethabi::Hash; 1]; 2]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.data_hash.to_m(&t[0]), r.topic1.to_m(&t[1])]) }
}
mod events_ev_gamma_to_delta { use super::*; use bindings::events::events::gamma_to_delta as b; use bindings::events::logs::GammaToDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[ethabi::Uint; 1]; 2]>(&c[0]), topics::<ethabi::Int>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.x.to_m(&t[1]), r.amount.to_m(&t[2])]) }
}
mod events_ev_gamma_to_kappa { use super::*; use bindings::events::events::gamma_to_kappa as b; use bindings::events::logs::GammaToKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[Vec<String>; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.amount.to_m(&t[0]), r.param1.to_m(&t[1]), r.data_hash.to_m(&t[2])]) }
}
mod events_ev_gamma_to_sigma { use super::*; use bindings::events::events::gamma_to_sigma as b; use bindings::events::logs::GammaToSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Int; 2]>(&c[0]), topics::<ethabi::Int>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.idx.to_m(&t[1]), r.amount.to_m(&t[2]), r.who.to_m(&t[3]), r.dead_line2.to_m(&t[4])]) }
}
mod events_ev_gamma_to_omega { use super::*; use bindings::events::events::gamma_to_omega as b; use bindings::events::logs::GammaToOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Uint; 2]>(&c[0]), topics::<bool>(&c[1]), topics::<ethabi::Uint>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.amount.to_m(&t[1]), r.param2.to_m(&t[2]), r.who.to_m(&t[3]), r.param4.to_m(&t[4])]) }
}
mod events_ev_gamma_to_zeta { use super::*; use bindings::events::events::gamma_to_zeta as b; use bindings::events::logs::GammaToZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.dead_line2.to_m(&t[0])]) }
}
mod events_ev_delta_to_alpha { use super::*; use bindings::events::events::delta_to_alpha as b; use bindings::events::logs::DeltaToAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[ethabi::Uint; 1]; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.who.to_m(&t[0]), r.param1.to_m(&t[1])]) }
}
mod events_ev_delta_to_beta { use super::*; use bindings::events::events::delta_to_beta as b; use bindings::events::logs::DeltaToBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![]) }
}
mod events_ev_delta_to_gamma { use super::*; use bindings::events::events::delta_to_gamma as b; use bindings::events::logs::DeltaToGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.new_owner.to_m(&t[0]), r.amount.to_m(&t[1]), r.to.to_m(&t[2])]) }
}
mod events_ev_delta_to_delta { use super::*; use bindings::events::events::delta_to_delta as b; use bindings::events::logs::DeltaToDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![]) }
}
mod events_ev_delta_to_kappa { use super::*; use bindings::events::events::delta_to_kappa as b; use bindings::events::logs::DeltaToKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0]), topics::<Vec<[[u8; 4]; 3]>>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.data_hash.to_m(&t[0]), r.kind_of.to_m(&t[1]), r.topic2.to_m(&t[2]), r.param3.to_m(&t[3]), r.who.to_m(&t[4]), r.x.to_m(&t[5])]) }
}
mod events_ev_delta_to_sigma { use super::*; use bindings::events::events::delta_to_sigma as b; use bindings::events::logs::DeltaToSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<bool>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.x.to_m(&t[0])]) }
}
mod events_ev_delta_to_omega { use super::*; use bindings::events::events::delta_to_omega as b; use bindings::events::logs::DeltaToOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.snake_name.to_m(&t[0]), r.x.to_m(&t[1]), r.to.to_m(&t[2])]) }
}
mod events_ev_delta_to_zeta { use super::*; use bindings::events::events::delta_to_zeta as b; use bindings::events::logs::DeltaToZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[u8; 1]; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.x.to_m(&t[0])]) }
}
mod events_ev_kappa_to_alpha { use super::*; use bindings::events::events::kappa_to_alpha as b; use bindings::events::logs::KappaToAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.kind_of.to_m(&t[0])]) }
}
mod events_ev_kappa_to_beta { use super::*; use bindings::events::events::kappa_to_beta as b; use bindings::events::logs::KappaToBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[u8; 4]>(&c[0]), topics::<Vec<[ethabi::Int; 3]>>(&c[1]), topics::<Vec<Vec<ethabi::Address>>>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.to.to_m(&t[1]), r.idx.to_m(&t[2]), r.amount.to_m(&t[3])]) }
}
mod events_ev_kappa_to_gamma { use super::*; use bindings::events::events::kappa_to_gamma as b; use bindings::events::logs::KappaToGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[String; 3]>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.who.to_m(&t[1]), r.kind_of.to_m(&t[2])]) }
}
mod events_ev_kappa_to_delta { use super::*; use bindings::events::events::kappa_to_delta as b; use bindings::events::logs::KappaToDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<u8>>(&c[0]), topics::<ethabi::Address>(&c[1]), topics::<[u8; 20]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.idx.to_m(&t[0]), r.x.to_m(&t[1]), r.dead_line2.to_m(&t[2]), r.to.to_m(&t[3]), r.amount.to_m(&t[4])]) }
}
mod events_ev_kappa_to_kappa { use super::*; use bindings::events::events::kappa_to_kappa as b; use bindings::events::logs::KappaToKappa as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![]) }
}
mod events_ev_kappa_to_sigma { use super::*; use bindings::events::events::kappa_to_sigma as b; use bindings::events::logs::KappaToSigma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.snake_name.to_m(&t[1])]) }
}
mod events_ev_kappa_to_omega { use super::*; use bindings::events::events::kappa_to_omega as b; use bindings::events::logs::KappaToOmega as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.who.to_m(&t[0])]) }
}
mod events_ev_kappa_to_zeta { use super::*; use bindings::events::events::kappa_to_zeta as b; use bindings::events::logs::KappaToZeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Uint>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.data_hash.to_m(&t[0]), r.param1.to_m(&t[1])]) }
}
mod events_ev_sigma_to_alpha { use super::*; use bindings::events::events::sigma_to_alpha as b; use bindings::events::logs::SigmaToAlpha as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0])]) }
}
mod events_ev_sigma_to_beta { use super::*; use bindings::events::events::sigma_to_beta as b; use bindings::events::logs::SigmaToBeta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[ethabi::Hash; 3]>>(&c[0]), topics::<ethabi::Uint>(&c[1]), topics::<ethabi::Int>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.param1.to_m(&t[1]), r.snake_name.to_m(&t[2]), r.data_hash.to_m(&t[3]), r.dead_line2.to_m(&t[4])]) }
}
mod events_ev_sigma_to_gamma { use super::*; use bindings::events::events::sigma_to_gamma as b; use bindings::events::logs::SigmaToGamma as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0]), topics::<Vec<Vec<[u8; 1]>>>(&c[1]), topics::<[Vec<bool>; 2]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.dead_line2.to_m(&t[0]), r.to.to_m(&t[1]), r.new_owner.to_m(&t[2]), r.idx.to_m(&t[3]), r.topic4.to_m(&t[4])]) }
}
mod events_ev_sigma_to_delta { use super::*; use bindings::events::events::sigma_to_delta as b; use bindings::events::logs::SigmaToDelta as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Int>>(&c[0]), topics::<Vec<ethabi::Int>>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.data_hash.to_m(&t[0]), r.snake_name.to_m(&t[1]), r.idx.to_m(&t[2]), r.kind_of.to_m(&t[3])]) }
}
fn events_ctor(code: Vec<u8>, a: &[MVal]) -> Vec<u8> { bindings::events::constructor(code) }
mod odd_ev_uri { use super::*; use bindings::odd::events::uri as b; use bindings::odd::logs::Uri as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.value.to_m(&t[0]), r.id.to_m(&t[1])]) }
}
mod odd_ev_log_note { use super::*; use bindings::odd::events::log_note as b; use bindings::odd::logs::LogNote as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.x.to_m(&t[0])]) }
}
mod odd_ev_fine { use super::*; use bindings::odd::events::fine as b; use bindings::odd::logs::Fine as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.x.to_m(&t[0])]) }
}
mod odd_uri { use super::*; use bindings::odd::functions::uri as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod odd_hidden { use super::*; use bindings::odd::functions::hidden as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod odd_snake_case_fn { use super::*; use bindings::odd::functions::snake_case_fn as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod sizes_sized0 { use super::*; use bindings::sizes::functions::sized0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[u8; 2]; 2] = V::from_m(&a[0]); let x1: [[u8; 3]; 2] = V::from_m(&a[1]); let x2: Vec<Vec<[u8; 4]>> = V::from_m(&a[2]); let x3: [[u8; 5]; 4] = V::from_m(&a[3]); let x4: Vec<[[u8; 6]; 5]> = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[u8; 2]; 2] = V::from_m(&a[0]); let x1: [[u8; 3]; 2] = V::from_m(&a[1]); let x2: Vec<Vec<[u8; 4]>> = V::from_m(&a[2]); let x3: [[u8; 5]; 4] = V::from_m(&a[3]); let x4: Vec<[[u8; 6]; 5]> = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized5 { use super::*; use bindings::sizes::functions::sized5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[[u8; 7]; 5]> = V::from_m(&a[0]); let x1: Vec<Vec<[u8; 8]>> = V::from_m(&a[1]); let x2: [u8; 9] = V::from_m(&a[2]); let x3: Vec<[u8; 10]> = V::from_m(&a[3]); let x4: [u8; 11] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[[u8; 7]; 5]> = V::from_m(&a[0]); let x1: Vec<Vec<[u8; 8]>> = V::from_m(&a[1]); let x2: [u8; 9] = V::from_m(&a[2]); let x3: Vec<[u8; 10]> = V::from_m(&a[3]); let x4: [u8; 11] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized10 { use super::*; use bindings::sizes::functions::sized10 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [[u8; 12]; 4] = V::from_m(&a[0]); let x1: [u8; 13] = V::from_m(&a[1]); let x2: [u8; 14] = V::from_m(&a[2]); let x3: [u8; 15] = V::from_m(&a[3]); let x4: Vec<Vec<[u8; 16]>> = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [[u8; 12]; 4] = V::from_m(&a[0]); let x1: [u8; 13] = V::from_m(&a[1]); let x2: [u8; 14] = V::from_m(&a[2]); let x3: [u8; 15] = V::from_m(&a[3]); let x4: Vec<Vec<[u8; 16]>> = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized15 { use super::*; use bindings::sizes::functions::sized15 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<[u8; 17]>> = V::from_m(&a[0]); let x1: Vec<[[u8; 18]; 5]> = V::from_m(&a[1]); let x2: [[u8; 19]; 4] = V::from_m(&a[2]); let x3: [u8; 20] = V::from_m(&a[3]); let x4: Vec<Vec<[u8; 21]>> = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<[u8; 17]>> = V::from_m(&a[0]); let x1: Vec<[[u8; 18]; 5]> = V::from_m(&a[1]); let x2: [[u8; 19]; 4] = V::from_m(&a[2]); let x3: [u8; 20] = V::from_m(&a[3]); let x4: Vec<Vec<[u8; 21]>> = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized20 { use super::*; use bindings::sizes::functions::sized20 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [Vec<[u8; 22]>; 3] = V::from_m(&a[0]); let x1: [[u8; 23]; 2] = V::from_m(&a[1]); let x2: [[u8; 24]; 2] = V::from_m(&a[2]); let x3: [u8; 25] = V::from_m(&a[3]); let x4: [[u8; 26]; 4] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [Vec<[u8; 22]>; 3] = V::from_m(&a[0]); let x1: [[u8; 23]; 2] = V::from_m(&a[1]); let x2: [[u8; 24]; 2] = V::from_m(&a[2]); let x3: [u8; 25] = V::from_m(&a[3]); let x4: [[u8; 26]; 4] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized25 { use super::*; use bindings::sizes::functions::sized25 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 27] = V::from_m(&a[0]); let x1: Vec<[u8; 28]> = V::from_m(&a[1]); let x2: [Vec<[u8; 29]>; 3] = V::from_m(&a[2]); let x3: [u8; 30] = V::from_m(&a[3]); let x4: Vec<[[u8; 31]; 5]> = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 27] = V::from_m(&a[0]); let x1: Vec<[u8; 28]> = V::from_m(&a[1]); let x2: [Vec<[u8; 29]>; 3] = V::from_m(&a[2]); let x3: [u8; 30] = V::from_m(&a[3]); let x4: Vec<[[u8; 31]; 5]> = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized30 { use super::*; use bindings::sizes::functions::sized30 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Int> = V::from_m(&a[1]); let x2: [ethabi::Int; 4] = V::from_m(&a[2]); let x3: [ethabi::Int; 4] = V::from_m(&a[3]); let x4: [Vec<ethabi::Int>; 3] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Int> = V::from_m(&a[1]); let x2: [ethabi::Int; 4] = V::from_m(&a[2]); let x3: [ethabi::Int; 4] = V::from_m(&a[3]); let x4: [Vec<ethabi::Int>; 3] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized35 { use super::*; use bindings::sizes::functions::sized35 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Int; 5]> = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); let x3: ethabi::Int = V::from_m(&a[3]); let x4: [ethabi::Int; 2] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Int; 5]> = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); let x3: ethabi::Int = V::from_m(&a[3]); let x4: [ethabi::Int; 2] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized40 { use super::*; use bindings::sizes::functions::sized40 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); let x3: [Vec<ethabi::Int>; 3] = V::from_m(&a[3]); let x4: [Vec<ethabi::Int>; 3] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Int = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); let x3: [Vec<ethabi::Int>; 3] = V::from_m(&a[3]); let x4: [Vec<ethabi::Int>; 3] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized45 { use super::*; use bindings::sizes::functions::sized45 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 4] = V::from_m(&a[0]); let x1: [ethabi::Int; 4] = V::from_m(&a[1]); let x2: [Vec<ethabi::Int>; 3] = V::from_m(&a[2]); let x3: [ethabi::Int; 4] = V::from_m(&a[3]); let x4: Vec<Vec<ethabi::Int>> = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 4] = V::from_m(&a[0]); let x1: [ethabi::Int; 4] = V::from_m(&a[1]); let x2: [Vec<ethabi::Int>; 3] = V::from_m(&a[2]); let x3: [ethabi::Int; 4] = V::from_m(&a[3]); let x4: Vec<Vec<ethabi::Int>> = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized50 { use super::*; use bindings::sizes::functions::sized50 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 4] = V::from_m(&a[0]); let x1: Vec<ethabi::Int> = V::from_m(&a[1]); let x2: Vec<ethabi::Int> = V::from_m(&a[2]); let x3: Vec<Vec<ethabi::Int>> = V::from_m(&a[3]); let x4: [ethabi::Int; 2] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 4] = V::from_m(&a[0]); let x1: Vec<ethabi::Int> = V::from_m(&a[1]); let x2: Vec<ethabi::Int> = V::from_m(&a[2]); let x3: Vec<Vec<ethabi::Int>> = V::from_m(&a[3]); let x4: [ethabi::Int; 2] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized55 { use super::*; use bindings::sizes::functions::sized55 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Int; 5]> = V::from_m(&a[0]); let x1: [ethabi::Int; 4] = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); let x3: [ethabi::Int; 4] = V::from_m(&a[3]); let x4: [ethabi::Int; 2] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Int; 5]> = V::from_m(&a[0]); let x1: [ethabi::Int; 4] = V::from_m(&a[1]); let x2: ethabi::Int = V::from_m(&a[2]); let x3: [ethabi::Int; 4] = V::from_m(&a[3]); let x4: [ethabi::Int; 2] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized60 { use super::*; use bindings::sizes::functions::sized60 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Uint>> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: Vec<ethabi::Uint> = V::from_m(&a[3]); let x4: [ethabi::Uint; 2] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Uint>> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: Vec<ethabi::Uint> = V::from_m(&a[3]); let x4: [ethabi::Uint; 2] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized65 { use super::*; use bindings::sizes::functions::sized65 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<[ethabi::Uint; 5]> = V::from_m(&a[0]); let x1: [ethabi::Uint; 2] = V::from_m(&a[1]); let x2: Vec<[ethabi::Uint; 5]> = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [ethabi::Uint; 4] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<[ethabi::Uint; 5]> = V::from_m(&a[0]); let x1: [ethabi::Uint; 2] = V::from_m(&a[1]); let x2: Vec<[ethabi::Uint; 5]> = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [ethabi::Uint; 4] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized70 { use super::*; use bindings::sizes::functions::sized70 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: Vec<[ethabi::Uint; 5]> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [ethabi::Uint; 2] = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: Vec<[ethabi::Uint; 5]> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [ethabi::Uint; 2] = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized75 { use super::*; use bindings::sizes::functions::sized75 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: Vec<[ethabi::Uint; 5]> = V::from_m(&a[1]); let x2: Vec<ethabi::Uint> = V::from_m(&a[2]); let x3: Vec<[ethabi::Uint; 5]> = V::from_m(&a[3]); let x4: Vec<[ethabi::Uint; 5]> = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: Vec<[ethabi::Uint; 5]> = V::from_m(&a[1]); let x2: Vec<ethabi::Uint> = V::from_m(&a[2]); let x3: Vec<[ethabi::Uint; 5]> = V::from_m(&a[3]); let x4: Vec<[ethabi::Uint; 5]> = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized80 { use super::*; use bindings::sizes::functions::sized80 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Uint>> = V::from_m(&a[1]); let x2: Vec<[ethabi::Uint; 5]> = V::from_m(&a[2]); let x3: [ethabi::Uint; 4] = V::from_m(&a[3]); let x4: ethabi::Uint = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<ethabi::Uint> = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Uint>> = V::from_m(&a[1]); let x2: Vec<[ethabi::Uint; 5]> = V::from_m(&a[2]); let x3: [ethabi::Uint; 4] = V::from_m(&a[3]); let x4: ethabi::Uint = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_sized85 { use super::*; use bindings::sizes::functions::sized85 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Uint>> = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: [ethabi::Uint; 4] = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: ethabi::Uint = V::from_m(&a[4]); b::encode_input(x0, x1, x2, x3, x4) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Uint>> = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: [ethabi::Uint; 4] = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: ethabi::Uint = V::from_m(&a[4]); let (d, k) = b::call(x0, x1, x2, x3, x4); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4])] }) })) }
}
mod sizes_long_0 { use super::*; use bindings::sizes::functions::long_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Uint; 4] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Uint; 4] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_1 { use super::*; use bindings::sizes::functions::long_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Address; 8] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Address; 8] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_2 { use super::*; use bindings::sizes::functions::long_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [bool; 16] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [bool; 16] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_3 { use super::*; use bindings::sizes::functions::long_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Hash; 31] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Hash; 31] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_4 { use super::*; use bindings::sizes::functions::long_4 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Uint; 32] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Uint; 32] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_5 { use super::*; use bindings::sizes::functions::long_5 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [String; 33] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [String; 33] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_6 { use super::*; use bindings::sizes::functions::long_6 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [[u8; 3]; 40] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [[u8; 3]; 40] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_7 { use super::*; use bindings::sizes::functions::long_7 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Int; 64] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Int; 64] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_8 { use super::*; use bindings::sizes::functions::long_8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [Vec<u8>; 17] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [Vec<u8>; 17] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_9 { use super::*; use bindings::sizes::functions::long_9 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Uint; 100] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [ethabi::Uint; 100] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_10 { use super::*; use bindings::sizes::functions::long_10 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [[ethabi::Address; 4]; 4] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [[ethabi::Address; 4]; 4] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_11 { use super::*; use bindings::sizes::functions::long_11 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: Vec<Vec<Vec<Vec<ethabi::Uint>>>> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: Vec<Vec<Vec<Vec<ethabi::Uint>>>> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_12 { use super::*; use bindings::sizes::functions::long_12 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: Vec<[Vec<[[u8; 5]; 2]>; 3]> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: Vec<[Vec<[[u8; 5]; 2]>; 3]> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_13 { use super::*; use bindings::sizes::functions::long_13 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [Vec<[Vec<String>; 2]>; 2] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [Vec<[Vec<String>; 2]>; 2] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_14 { use super::*; use bindings::sizes::functions::long_14 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [[[bool; 3]; 3]; 3] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [[[bool; 3]; 3]; 3] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_15 { use super::*; use bindings::sizes::functions::long_15 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: Vec<[ethabi::Int; 10]> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: Vec<[ethabi::Int; 10]> = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_long_16 { use super::*; use bindings::sizes::functions::long_16 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: [Vec<Vec<u8>>; 12] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: [Vec<Vec<u8>>; 12] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod sizes_many9_and8 { use super::*; use bindings::sizes::functions::many9_and8 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 26] = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Int>> = V::from_m(&a[1]); let x2: Vec<[ethabi::Int; 3]> = V::from_m(&a[2]); let x3: [[u8; 1]; 2] = V::from_m(&a[3]); let x4: ethabi::Int = V::from_m(&a[4]); let x5: [u8; 11] = V::from_m(&a[5]); let x6: Vec<[ethabi::Int; 3]> = V::from_m(&a[6]); let x7: [[ethabi::Address; 1]; 2] = V::from_m(&a[7]); let x8: ethabi::Uint = V::from_m(&a[8]); b::encode_input(x0, x1, x2, x3, x4, x5, x6, x7, x8) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 26] = V::from_m(&a[0]); let x1: Vec<Vec<ethabi::Int>> = V::from_m(&a[1]); let x2: Vec<[ethabi::Int; 3]> = V::from_m(&a[2]); let x3: [[u8; 1]; 2] = V::from_m(&a[3]); let x4: ethabi::Int = V::from_m(&a[4]); let x5: [u8; 11] = V::from_m(&a[5]); let x6: Vec<[ethabi::Int; 3]> = V::from_m(&a[6]); let x7: [[ethabi::Address; 1]; 2] = V::from_m(&a[7]); let x8: ethabi::Uint = V::from_m(&a[8]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6, x7, x8); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7])] }) })) }
}
mod sizes_many10_and9 { use super::*; use bindings::sizes::functions::many10_and9 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<ethabi::Hash>> = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: [u8; 2] = V::from_m(&a[3]); let x4: Vec<[[u8; 20]; 3]> = V::from_m(&a[4]); let x5: Vec<[u8; 20]> = V::from_m(&a[5]); let x6: ethabi::Int = V::from_m(&a[6]); let x7: ethabi::Uint = V::from_m(&a[7]); let x8: ethabi::Uint = V::from_m(&a[8]); let x9: ethabi::Uint = V::from_m(&a[9]); b::encode_input(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7]), r.8.to_m(&t[8])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<ethabi::Hash>> = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: [u8; 2] = V::from_m(&a[3]); let x4: Vec<[[u8; 20]; 3]> = V::from_m(&a[4]); let x5: Vec<[u8; 20]> = V::from_m(&a[5]); let x6: ethabi::Int = V::from_m(&a[6]); let x7: ethabi::Uint = V::from_m(&a[7]); let x8: ethabi::Uint = V::from_m(&a[8]); let x9: ethabi::Uint = V::from_m(&a[9]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7]), r.8.to_m(&t[8])] }) })) }
}
mod sizes_many12_and10 { use super::*; use bindings::sizes::functions::many12_and10 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: [u8; 1] = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [u8; 2] = V::from_m(&a[4]); let x5: bool = V::from_m(&a[5]); let x6: ethabi::Uint = V::from_m(&a[6]); let x7: [Vec<Vec<u8>>; 2] = V::from_m(&a[7]); let x8: [u8; 7] = V::from_m(&a[8]); let x9: ethabi::Uint = V::from_m(&a[9]); let x10: Vec<[u8; 4]> = V::from_m(&a[10]); let x11: [u8; 15] = V::from_m(&a[11]); b::encode_input(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7]), r.8.to_m(&t[8]), r.9.to_m(&t[9])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: [u8; 1] = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [u8; 2] = V::from_m(&a[4]); let x5: bool = V::from_m(&a[5]); let x6: ethabi::Uint = V::from_m(&a[6]); let x7: [Vec<Vec<u8>>; 2] = V::from_m(&a[7]); let x8: [u8; 7] = V::from_m(&a[8]); let x9: ethabi::Uint = V::from_m(&a[9]); let x10: Vec<[u8; 4]> = V::from_m(&a[10]); let x11: [u8; 15] = V::from_m(&a[11]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7]), r.8.to_m(&t[8]), r.9.to_m(&t[9])] }) })) }
}
mod sizes_many14_and12 { use super::*; use bindings::sizes::functions::many14_and12 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: [u8; 15] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [u8; 25] = V::from_m(&a[4]); let x5: ethabi::Uint = V::from_m(&a[5]); let x6: ethabi::Int = V::from_m(&a[6]); let x7: ethabi::Hash = V::from_m(&a[7]); let x8: ethabi::Int = V::from_m(&a[8]); let x9: ethabi::Int = V::from_m(&a[9]); let x10: [u8; 7] = V::from_m(&a[10]); let x11: Vec<[[u8; 4]; 3]> = V::from_m(&a[11]); let x12: Vec<[bool; 3]> = V::from_m(&a[12]); let x13: Vec<[u8; 1]> = V::from_m(&a[13]); b::encode_input(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7]), r.8.to_m(&t[8]), r.9.to_m(&t[9]), r.10.to_m(&t[10]), r.11.to_m(&t[11])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: [u8; 15] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: ethabi::Uint = V::from_m(&a[3]); let x4: [u8; 25] = V::from_m(&a[4]); let x5: ethabi::Uint = V::from_m(&a[5]); let x6: ethabi::Int = V::from_m(&a[6]); let x7: ethabi::Hash = V::from_m(&a[7]); let x8: ethabi::Int = V::from_m(&a[8]); let x9: ethabi::Int = V::from_m(&a[9]); let x10: [u8; 7] = V::from_m(&a[10]); let x11: Vec<[[u8; 4]; 3]> = V::from_m(&a[11]); let x12: Vec<[bool; 3]> = V::from_m(&a[12]); let x13: Vec<[u8; 1]> = V::from_m(&a[13]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7]), r.8.to_m(&t[8]), r.9.to_m(&t[9]), r.10.to_m(&t[10]), r.11.to_m(&t[11])] }) })) }
}
mod sizes_many16_and1 { use super::*; use bindings::sizes::functions::many16_and1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 12] = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: [bool; 2] = V::from_m(&a[2]); let x3: ethabi::Int = V::from_m(&a[3]); let x4: [Vec<ethabi::Hash>; 2] = V::from_m(&a[4]); let x5: Vec<ethabi::Int> = V::from_m(&a[5]); let x6: ethabi::Hash = V::from_m(&a[6]); let x7: [u8; 4] = V::from_m(&a[7]); let x8: Vec<Vec<ethabi::Int>> = V::from_m(&a[8]); let x9: Vec<Vec<[u8; 1]>> = V::from_m(&a[9]); let x10: ethabi::Uint = V::from_m(&a[10]); let x11: [u8; 1] = V::from_m(&a[11]); let x12: ethabi::Uint = V::from_m(&a[12]); let x13: ethabi::Int = V::from_m(&a[13]); let x14: ethabi::Int = V::from_m(&a[14]); let x15: ethabi::Int = V::from_m(&a[15]); b::encode_input(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 12] = V::from_m(&a[0]); let x1: ethabi::Uint = V::from_m(&a[1]); let x2: [bool; 2] = V::from_m(&a[2]); let x3: ethabi::Int = V::from_m(&a[3]); let x4: [Vec<ethabi::Hash>; 2] = V::from_m(&a[4]); let x5: Vec<ethabi::Int> = V::from_m(&a[5]); let x6: ethabi::Hash = V::from_m(&a[6]); let x7: [u8; 4] = V::from_m(&a[7]); let x8: Vec<Vec<ethabi::Int>> = V::from_m(&a[8]); let x9: Vec<Vec<[u8; 1]>> = V::from_m(&a[9]); let x10: ethabi::Uint = V::from_m(&a[10]); let x11: [u8; 1] = V::from_m(&a[11]); let x12: ethabi::Uint = V::from_m(&a[12]); let x13: ethabi::Int = V::from_m(&a[13]); let x14: ethabi::Int = V::from_m(&a[14]); let x15: ethabi::Int = V::from_m(&a[15]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod sizes_many1_and13 { use super::*; use bindings::sizes::functions::many1_and13 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<u8> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7]), r.8.to_m(&t[8]), r.9.to_m(&t[9]), r.10.to_m(&t[10]), r.11.to_m(&t[11]), r.12.to_m(&t[12])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<u8> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2]), r.3.to_m(&t[3]), r.4.to_m(&t[4]), r.5.to_m(&t[5]), r.6.to_m(&t[6]), r.7.to_m(&t[7]), r.8.to_m(&t[8]), r.9.to_m(&t[9]), r.10.to_m(&t[10]), r.11.to_m(&t[11]), r.12.to_m(&t[12])] }) })) }
}
mod sizes_many26_and0 { use super::*; use bindings::sizes::functions::many26_and0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [String; 2] = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: String = V::from_m(&a[3]); let x4: ethabi::Int = V::from_m(&a[4]); let x5: Vec<Vec<ethabi::Int>> = V::from_m(&a[5]); let x6: ethabi::Uint = V::from_m(&a[6]); let x7: ethabi::Uint = V::from_m(&a[7]); let x8: ethabi::Uint = V::from_m(&a[8]); let x9: Vec<[bool; 3]> = V::from_m(&a[9]); let x10: ethabi::Int = V::from_m(&a[10]); let x11: ethabi::Int = V::from_m(&a[11]); let x12: ethabi::Uint = V::from_m(&a[12]); let x13: [[String; 1]; 2] = V::from_m(&a[13]); let x14: ethabi::Int = V::from_m(&a[14]); let x15: [Vec<[u8; 1]>; 2] = V::from_m(&a[15]); let x16: bool = V::from_m(&a[16]); let x17: [Vec<ethabi::Uint>; 2] = V::from_m(&a[17]); let x18: [Vec<ethabi::Uint>; 2] = V::from_m(&a[18]); let x19: Vec<ethabi::Uint> = V::from_m(&a[19]); let x20: ethabi::Uint = V::from_m(&a[20]); let x21: Vec<Vec<ethabi::Int>> = V::from_m(&a[21]); let x22: ethabi::Int = V::from_m(&a[22]); let x23: Vec<ethabi::Int> = V::from_m(&a[23]); let x24: bool = V::from_m(&a[24]); let x25: ethabi::Int = V::from_m(&a[25]); b::encode_input(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [String; 2] = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: String = V::from_m(&a[3]); let x4: ethabi::Int = V::from_m(&a[4]); let x5: Vec<Vec<ethabi::Int>> = V::from_m(&a[5]); let x6: ethabi::Uint = V::from_m(&a[6]); let x7: ethabi::Uint = V::from_m(&a[7]); let x8: ethabi::Uint = V::from_m(&a[8]); let x9: Vec<[bool; 3]> = V::from_m(&a[9]); let x10: ethabi::Int = V::from_m(&a[10]); let x11: ethabi::Int = V::from_m(&a[11]); let x12: ethabi::Uint = V::from_m(&a[12]); let x13: [[String; 1]; 2] = V::from_m(&a[13]); let x14: ethabi::Int = V::from_m(&a[14]); let x15: [Vec<[u8; 1]>; 2] = V::from_m(&a[15]); let x16: bool = V::from_m(&a[16]); let x17: [Vec<ethabi::Uint>; 2] = V::from_m(&a[17]); let x18: [Vec<ethabi::Uint>; 2] = V::from_m(&a[18]); let x19: Vec<ethabi::Uint> = V::from_m(&a[19]); let x20: ethabi::Uint = V::from_m(&a[20]); let x21: Vec<Vec<ethabi::Int>> = V::from_m(&a[21]); let x22: ethabi::Int = V::from_m(&a[22]); let x23: Vec<ethabi::Int> = V::from_m(&a[23]); let x24: bool = V::from_m(&a[24]); let x25: ethabi::Int = V::from_m(&a[25]); let (d, k) = b::call(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod sizes_ev_sized_a { use super::*; use bindings::sizes::events::sized_a as b; use bindings::sizes::logs::SizedA as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Uint>>(&c[0]), topics::<[u8; 31]>(&c[1]), topics::<Vec<[[u8; 12]; 5]>>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.field_no0.to_m(&t[0]), r.field1.to_m(&t[1]), r.field2.to_m(&t[2]), r.field_no3.to_m(&t[3])]) }
}
mod sizes_ev_sized_bx { use super::*; use bindings::sizes::events::sized_bx as b; use bindings::sizes::logs::SizedBx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[ethabi::Address; 4]; 4]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.field_no0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.f2.to_m(&t[2]), r.param3.to_m(&t[3])]) }
}
mod sizes_ev_sized_cxx { use super::*; use bindings::sizes::events::sized_cxx as b; use bindings::sizes::logs::SizedCxx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Uint; 4]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f0.to_m(&t[0]), r.param1.to_m(&t[1]), r.field2.to_m(&t[2]), r.field3.to_m(&t[3]), r.field_no4.to_m(&t[4]), r.param5.to_m(&t[5])]) }
}
mod sizes_ev_sized_d { use super::*; use bindings::sizes::events::sized_d as b; use bindings::sizes::logs::SizedD as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[ethabi::Int; 5]>>(&c[0]), topics::<Vec<Vec<ethabi::Uint>>>(&c[1]), topics::<[ethabi::Int; 2]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f0.to_m(&t[0]), r.field1.to_m(&t[1]), r.field2.to_m(&t[2]), r.field_no3.to_m(&t[3]), r.f4.to_m(&t[4]), r.param5.to_m(&t[5]), r.f6.to_m(&t[6])]) }
}
mod sizes_ev_sized_ex { use super::*; use bindings::sizes::events::sized_ex as b; use bindings::sizes::logs::SizedEx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<ethabi::Int>>>(&c[0]), topics::<[Vec<u8>; 17]>(&c[1]), topics::<Vec<[ethabi::Uint; 5]>>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.field0.to_m(&t[0]), r.field1.to_m(&t[1]), r.field2.to_m(&t[2]), r.f3.to_m(&t[3]), r.field4.to_m(&t[4]), r.param5.to_m(&t[5]), r.f6.to_m(&t[6]), r.field7.to_m(&t[7]), r.field_no8.to_m(&t[8]), r.field9.to_m(&t[9]), r.field10.to_m(&t[10]), r.param11.to_m(&t[11])]) }
}
mod sizes_ev_sized_fxx { use super::*; use bindings::sizes::events::sized_fxx as b; use bindings::sizes::logs::SizedFxx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[[ethabi::Address; 4]; 4]>(&c[0]), topics::<[ethabi::Uint; 100]>(&c[1]), topics::<[[[bool; 3]; 3]; 3]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f0.to_m(&t[0]), r.f1.to_m(&t[1]), r.field2.to_m(&t[2]), r.field_no3.to_m(&t[3]), r.param4.to_m(&t[4]), r.f5.to_m(&t[5]), r.param6.to_m(&t[6]), r.f7.to_m(&t[7]), r.field_no8.to_m(&t[8]), r.f9.to_m(&t[9]), r.field_no10.to_m(&t[10])]) }
}
mod sizes_ev_sized_g { use super::*; use bindings::sizes::events::sized_g as b; use bindings::sizes::logs::SizedG as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Int; 2]>(&c[0]), topics::<[ethabi::Uint; 100]>(&c[1]), topics::<ethabi::Uint>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f0.to_m(&t[0]), r.field_no1.to_m(&t[1]), r.field2.to_m(&t[2]), r.topic3.to_m(&t[3]), r.f4.to_m(&t[4]), r.f5.to_m(&t[5]), r.field6.to_m(&t[6])]) }
}
mod sizes_ev_sized_hx { use super::*; use bindings::sizes::events::sized_hx as b; use bindings::sizes::logs::SizedHx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<ethabi::Int>>>(&c[0]), topics::<Vec<ethabi::Uint>>(&c[1]), topics::<[[u8; 20]; 4]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.field_no0.to_m(&t[0]), r.field1.to_m(&t[1]), r.field_no2.to_m(&t[2]), r.field3.to_m(&t[3]), r.field_no4.to_m(&t[4]), r.param5.to_m(&t[5]), r.field_no6.to_m(&t[6]), r.field_no7.to_m(&t[7]), r.field8.to_m(&t[8])]) }
}
mod sizes_ev_sized_ixx { use super::*; use bindings::sizes::events::sized_ixx as b; use bindings::sizes::logs::SizedIxx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[String; 33]>(&c[0]), topics::<[ethabi::Uint; 4]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.field_no0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.param2.to_m(&t[2]), r.f3.to_m(&t[3])]) }
}
mod sizes_ev_sized_j { use super::*; use bindings::sizes::events::sized_j as b; use bindings::sizes::logs::SizedJ as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<[ethabi::Int; 10]>>(&c[0]), topics::<[Vec<[Vec<String>; 2]>; 2]>(&c[1]), topics::<ethabi::Uint>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.field2.to_m(&t[2]), r.field_no3.to_m(&t[3]), r.param4.to_m(&t[4]), r.field_no5.to_m(&t[5])]) }
}
mod sizes_ev_sized_kx { use super::*; use bindings::sizes::events::sized_kx as b; use bindings::sizes::logs::SizedKx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Int>>(&c[0]), topics::<[[[bool; 3]; 3]; 3]>(&c[1]), topics::<[Vec<ethabi::Uint>; 3]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.field0.to_m(&t[0]), r.field_no1.to_m(&t[1]), r.field2.to_m(&t[2]), r.field_no3.to_m(&t[3]), r.f4.to_m(&t[4]), r.f5.to_m(&t[5]), r.f6.to_m(&t[6]), r.param7.to_m(&t[7]), r.f8.to_m(&t[8]), r.field9.to_m(&t[9])]) }
}
mod sizes_ev_sized_lxx { use super::*; use bindings::sizes::events::sized_lxx as b; use bindings::sizes::logs::SizedLxx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Int; 2]>(&c[0]), topics::<[[u8; 15]; 4]>(&c[1]), topics::<ethabi::Uint>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.field0.to_m(&t[0]), r.f1.to_m(&t[1]), r.field_no2.to_m(&t[2]), r.field3.to_m(&t[3]), r.param4.to_m(&t[4]), r.f5.to_m(&t[5]), r.f6.to_m(&t[6]), r.f7.to_m(&t[7])]) }
}
mod sizes_ev_sized_m { use super::*; use bindings::sizes::events::sized_m as b; use bindings::sizes::logs::SizedM as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<ethabi::Uint>>(&c[0]), topics::<[Vec<ethabi::Int>; 3]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.field1.to_m(&t[1]), r.f2.to_m(&t[2]), r.field3.to_m(&t[3]), r.f4.to_m(&t[4])]) }
}
mod sizes_ev_sized_nx { use super::*; use bindings::sizes::events::sized_nx as b; use bindings::sizes::logs::SizedNx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[ethabi::Uint; 4]>(&c[0]), topics::<[[u8; 27]; 2]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.field0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.field_no2.to_m(&t[2]), r.param3.to_m(&t[3])]) }
}
mod sizes_ev_sized_oxx { use super::*; use bindings::sizes::events::sized_oxx as b; use bindings::sizes::logs::SizedOxx as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<Vec<Vec<ethabi::Uint>>>>>(&c[0]), topics::<[ethabi::Uint; 4]>(&c[1]), topics::<[ethabi::Uint; 4]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.field_no0.to_m(&t[0]), r.field_no1.to_m(&t[1]), r.field2.to_m(&t[2]), r.f3.to_m(&t[3]), r.f4.to_m(&t[4]), r.param5.to_m(&t[5]), r.field6.to_m(&t[6]), r.param7.to_m(&t[7]), r.f8.to_m(&t[8]), r.f9.to_m(&t[9]), r.param10.to_m(&t[10]), r.field11.to_m(&t[11])]) }
}
mod sizes_ev_sized_p { use super::*; use bindings::sizes::events::sized_p as b; use bindings::sizes::logs::SizedP as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[u8; 9]>(&c[0]), topics::<Vec<[ethabi::Int; 10]>>(&c[1]), topics::<Vec<[Vec<[[u8; 5]; 2]>; 3]>>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.field_no1.to_m(&t[1]), r.field_no2.to_m(&t[2]), r.f3.to_m(&t[3]), r.f4.to_m(&t[4]), r.topic5.to_m(&t[5]), r.f6.to_m(&t[6]), r.field7.to_m(&t[7]), r.param8.to_m(&t[8])]) }
}
fn sizes_ctor(code: Vec<u8>, a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); let x1: [u8; 22] = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let x3: [ethabi::Uint; 4] = V::from_m(&a[3]); let x4: [ethabi::Uint; 2] = V::from_m(&a[4]); let x5: [[u8; 19]; 4] = V::from_m(&a[5]); let x6: [ethabi::Int; 4] = V::from_m(&a[6]); let x7: ethabi::Uint = V::from_m(&a[7]); let x8: [u8; 5] = V::from_m(&a[8]); let x9: Vec<[u8; 5]> = V::from_m(&a[9]); let x10: Vec<ethabi::Int> = V::from_m(&a[10]); bindings::sizes::constructor(code, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10) }
mod grid_ev_event_of0_and0_named { use super::*; use bindings::grid::events::event_of0_and0_named as b; use bindings::grid::logs::EventOf0And0Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![]) }
}
mod grid_ev_event_of0_and1_named { use super::*; use bindings::grid::events::event_of0_and1_named as b; use bindings::grid::logs::EventOf0And1Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0])]) }
}
mod grid_ev_event_of0_and1_bare { use super::*; use bindings::grid::events::event_of0_and1_bare as b; use bindings::grid::logs::EventOf0And1Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0])]) }
}
mod grid_ev_event_of0_and1_mixed { use super::*; use bindings::grid::events::event_of0_and1_mixed as b; use bindings::grid::logs::EventOf0And1Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0])]) }
}
mod grid_ev_event_of0_and2_named { use super::*; use bindings::grid::events::event_of0_and2_named as b; use bindings::grid::logs::EventOf0And2Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1])]) }
}
mod grid_ev_event_of0_and2_bare { use super::*; use bindings::grid::events::event_of0_and2_bare as b; use bindings::grid::logs::EventOf0And2Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.param1.to_m(&t[1])]) }
}
mod grid_ev_event_of0_and2_mixed { use super::*; use bindings::grid::events::event_of0_and2_mixed as b; use bindings::grid::logs::EventOf0And2Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.param1.to_m(&t[1])]) }
}
mod grid_ev_event_of0_and3_named { use super::*; use bindings::grid::events::event_of0_and3_named as b; use bindings::grid::logs::EventOf0And3Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_event_of0_and3_bare { use super::*; use bindings::grid::events::event_of0_and3_bare as b; use bindings::grid::logs::EventOf0And3Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.param1.to_m(&t[1]), r.param2.to_m(&t[2])]) }
}
mod grid_ev_event_of0_and3_mixed { use super::*; use bindings::grid::events::event_of0_and3_mixed as b; use bindings::grid::logs::EventOf0And3Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.raw.to_m(&t[1]), r.param2.to_m(&t[2])]) }
}
mod grid_ev_event_of1_and0_named { use super::*; use bindings::grid::events::event_of1_and0_named as b; use bindings::grid::logs::EventOf1And0Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0])]) }
}
mod grid_ev_event_of1_and0_bare { use super::*; use bindings::grid::events::event_of1_and0_bare as b; use bindings::grid::logs::EventOf1And0Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0])]) }
}
mod grid_ev_event_of1_and0_mixed { use super::*; use bindings::grid::events::event_of1_and0_mixed as b; use bindings::grid::logs::EventOf1And0Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0])]) }
}
mod grid_ev_event_of1_and1_named { use super::*; use bindings::grid::events::event_of1_and1_named as b; use bindings::grid::logs::EventOf1And1Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1])]) }
}
mod grid_ev_event_of1_and1_bare { use super::*; use bindings::grid::events::event_of1_and1_bare as b; use bindings::grid::logs::EventOf1And1Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.param1.to_m(&t[1])]) }
}
mod grid_ev_event_of1_and1_mixed { use super::*; use bindings::grid::events::event_of1_and1_mixed as b; use bindings::grid::logs::EventOf1And1Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<bool>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1])]) }
}
mod grid_ev_event_of1_and2_named { use super::*; use bindings::grid::events::event_of1_and2_named as b; use bindings::grid::logs::EventOf1And2Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_event_of1_and2_bare { use super::*; use bindings::grid::events::event_of1_and2_bare as b; use bindings::grid::logs::EventOf1And2Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.param1.to_m(&t[1]), r.topic2.to_m(&t[2])]) }
}
mod grid_ev_event_of1_and2_mixed { use super::*; use bindings::grid::events::event_of1_and2_mixed as b; use bindings::grid::logs::EventOf1And2Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.param1.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_event_of1_and3_named { use super::*; use bindings::grid::events::event_of1_and3_named as b; use bindings::grid::logs::EventOf1And3Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_event_of1_and3_bare { use super::*; use bindings::grid::events::event_of1_and3_bare as b; use bindings::grid::logs::EventOf1And3Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.param1.to_m(&t[1]), r.param2.to_m(&t[2]), r.param3.to_m(&t[3])]) }
}
mod grid_ev_event_of1_and3_mixed { use super::*; use bindings::grid::events::event_of1_and3_mixed as b; use bindings::grid::logs::EventOf1And3Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.raw.to_m(&t[1]), r.param2.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_event_of2_and0_named { use super::*; use bindings::grid::events::event_of2_and0_named as b; use bindings::grid::logs::EventOf2And0Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Address>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1])]) }
}
mod grid_ev_event_of2_and0_bare { use super::*; use bindings::grid::events::event_of2_and0_bare as b; use bindings::grid::logs::EventOf2And0Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<bool>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1])]) }
}
mod grid_ev_event_of2_and0_mixed { use super::*; use bindings::grid::events::event_of2_and0_mixed as b; use bindings::grid::logs::EventOf2And0Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Hash>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1])]) }
}
mod grid_ev_event_of2_and1_named { use super::*; use bindings::grid::events::event_of2_and1_named as b; use bindings::grid::logs::EventOf2And1Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0]), topics::<[bool; 2]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_event_of2_and1_bare { use super::*; use bindings::grid::events::event_of2_and1_bare as b; use bindings::grid::logs::EventOf2And1Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<ethabi::Int>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.param2.to_m(&t[2])]) }
}
mod grid_ev_event_of2_and1_mixed { use super::*; use bindings::grid::events::event_of2_and1_mixed as b; use bindings::grid::logs::EventOf2And1Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Hash>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1]), r.topic2.to_m(&t[2])]) }
}
mod grid_ev_event_of2_and2_named { use super::*; use bindings::grid::events::event_of2_and2_named as b; use bindings::grid::logs::EventOf2And2Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<bool>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_event_of2_and2_bare { use super::*; use bindings::grid::events::event_of2_and2_bare as b; use bindings::grid::logs::EventOf2And2Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Int>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.param1.to_m(&t[1]), r.param2.to_m(&t[2]), r.topic3.to_m(&t[3])]) }
}
mod grid_ev_event_of2_and2_mixed { use super::*; use bindings::grid::events::event_of2_and2_mixed as b; use bindings::grid::logs::EventOf2And2Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Address>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1]), r.data.to_m(&t[2]), r.param3.to_m(&t[3])]) }
}
mod grid_ev_event_of2_and3_named { use super::*; use bindings::grid::events::event_of2_and3_named as b; use bindings::grid::logs::EventOf2And3Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<bool>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3]), r.from.to_m(&t[4])]) }
}
mod grid_ev_event_of2_and3_bare { use super::*; use bindings::grid::events::event_of2_and3_bare as b; use bindings::grid::logs::EventOf2And3Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Hash>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.param2.to_m(&t[2]), r.param3.to_m(&t[3]), r.param4.to_m(&t[4])]) }
}
mod grid_ev_event_of2_and3_mixed { use super::*; use bindings::grid::events::event_of2_and3_mixed as b; use bindings::grid::logs::EventOf2And3Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0]), topics::<[bool; 2]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.raw.to_m(&t[1]), r.param2.to_m(&t[2]), r.log.to_m(&t[3]), r.topic4.to_m(&t[4])]) }
}
mod grid_ev_event_of3_and0_named { use super::*; use bindings::grid::events::event_of3_and0_named as b; use bindings::grid::logs::EventOf3And0Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<ethabi::Int>(&c[1]), topics::<ethabi::Uint>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_event_of3_and0_bare { use super::*; use bindings::grid::events::event_of3_and0_bare as b; use bindings::grid::logs::EventOf3And0Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0]), topics::<Vec<Vec<u8>>>(&c[1]), topics::<ethabi::Address>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2])]) }
}
mod grid_ev_event_of3_and0_mixed { use super::*; use bindings::grid::events::event_of3_and0_mixed as b; use bindings::grid::logs::EventOf3And0Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<bool>(&c[1]), topics::<String>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_event_of3_and1_named { use super::*; use bindings::grid::events::event_of3_and1_named as b; use bindings::grid::logs::EventOf3And1Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Hash>(&c[1]), topics::<ethabi::Int>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_event_of3_and1_bare { use super::*; use bindings::grid::events::event_of3_and1_bare as b; use bindings::grid::logs::EventOf3And1Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Address>(&c[1]), topics::<[bool; 2]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2]), r.param3.to_m(&t[3])]) }
}
mod grid_ev_event_of3_and1_mixed { use super::*; use bindings::grid::events::event_of3_and1_mixed as b; use bindings::grid::logs::EventOf3And1Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<ethabi::Int>(&c[1]), topics::<bool>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1]), r.topic2.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_event_of3_and2_named { use super::*; use bindings::grid::events::event_of3_and2_named as b; use bindings::grid::logs::EventOf3And2Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Hash>(&c[1]), topics::<Vec<Vec<u8>>>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3]), r.from.to_m(&t[4])]) }
}
mod grid_ev_event_of3_and2_bare { use super::*; use bindings::grid::events::event_of3_and2_bare as b; use bindings::grid::logs::EventOf3And2Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<ethabi::Address>(&c[1]), topics::<bool>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.param1.to_m(&t[1]), r.topic2.to_m(&t[2]), r.param3.to_m(&t[3]), r.topic4.to_m(&t[4])]) }
}
mod grid_ev_event_of3_and2_mixed { use super::*; use bindings::grid::events::event_of3_and2_mixed as b; use bindings::grid::logs::EventOf3And2Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<ethabi::Int>(&c[1]), topics::<ethabi::Uint>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1]), r.data.to_m(&t[2]), r.param3.to_m(&t[3]), r.from.to_m(&t[4])]) }
}
mod grid_ev_event_of3_and3_named { use super::*; use bindings::grid::events::event_of3_and3_named as b; use bindings::grid::logs::EventOf3And3Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0]), topics::<Vec<Vec<u8>>>(&c[1]), topics::<ethabi::Hash>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3]), r.from.to_m(&t[4]), r.e.to_m(&t[5])]) }
}
mod grid_ev_event_of3_and3_bare { use super::*; use bindings::grid::events::event_of3_and3_bare as b; use bindings::grid::logs::EventOf3And3Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<bool>(&c[1]), topics::<String>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2]), r.param3.to_m(&t[3]), r.param4.to_m(&t[4]), r.param5.to_m(&t[5])]) }
}
mod grid_ev_event_of3_and3_mixed { use super::*; use bindings::grid::events::event_of3_and3_mixed as b; use bindings::grid::logs::EventOf3And3Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0]), topics::<ethabi::Uint>(&c[1]), topics::<ethabi::Hash>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1]), r.topic2.to_m(&t[2]), r.log.to_m(&t[3]), r.param4.to_m(&t[4]), r.e.to_m(&t[5])]) }
}
mod grid_ev_anon_of0_and0_named { use super::*; use bindings::grid::events::anon_of0_and0_named as b; use bindings::grid::logs::AnonOf0And0Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![]) }
}
mod grid_ev_anon_of0_and1_named { use super::*; use bindings::grid::events::anon_of0_and1_named as b; use bindings::grid::logs::AnonOf0And1Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0])]) }
}
mod grid_ev_anon_of0_and1_bare { use super::*; use bindings::grid::events::anon_of0_and1_bare as b; use bindings::grid::logs::AnonOf0And1Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0])]) }
}
mod grid_ev_anon_of0_and1_mixed { use super::*; use bindings::grid::events::anon_of0_and1_mixed as b; use bindings::grid::logs::AnonOf0And1Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0])]) }
}
mod grid_ev_anon_of0_and2_named { use super::*; use bindings::grid::events::anon_of0_and2_named as b; use bindings::grid::logs::AnonOf0And2Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1])]) }
}
mod grid_ev_anon_of0_and2_bare { use super::*; use bindings::grid::events::anon_of0_and2_bare as b; use bindings::grid::logs::AnonOf0And2Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.param1.to_m(&t[1])]) }
}
mod grid_ev_anon_of0_and2_mixed { use super::*; use bindings::grid::events::anon_of0_and2_mixed as b; use bindings::grid::logs::AnonOf0And2Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.param1.to_m(&t[1])]) }
}
mod grid_ev_anon_of0_and3_named { use super::*; use bindings::grid::events::anon_of0_and3_named as b; use bindings::grid::logs::AnonOf0And3Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_anon_of0_and3_bare { use super::*; use bindings::grid::events::anon_of0_and3_bare as b; use bindings::grid::logs::AnonOf0And3Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.param1.to_m(&t[1]), r.param2.to_m(&t[2])]) }
}
mod grid_ev_anon_of0_and3_mixed { use super::*; use bindings::grid::events::anon_of0_and3_mixed as b; use bindings::grid::logs::AnonOf0And3Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter() }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.raw.to_m(&t[1]), r.param2.to_m(&t[2])]) }
}
mod grid_ev_anon_of1_and0_named { use super::*; use bindings::grid::events::anon_of1_and0_named as b; use bindings::grid::logs::AnonOf1And0Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0])]) }
}
mod grid_ev_anon_of1_and0_bare { use super::*; use bindings::grid::events::anon_of1_and0_bare as b; use bindings::grid::logs::AnonOf1And0Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0])]) }
}
mod grid_ev_anon_of1_and0_mixed { use super::*; use bindings::grid::events::anon_of1_and0_mixed as b; use bindings::grid::logs::AnonOf1And0Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0])]) }
}
mod grid_ev_anon_of1_and1_named { use super::*; use bindings::grid::events::anon_of1_and1_named as b; use bindings::grid::logs::AnonOf1And1Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1])]) }
}
mod grid_ev_anon_of1_and1_bare { use super::*; use bindings::grid::events::anon_of1_and1_bare as b; use bindings::grid::logs::AnonOf1And1Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.param1.to_m(&t[1])]) }
}
mod grid_ev_anon_of1_and1_mixed { use super::*; use bindings::grid::events::anon_of1_and1_mixed as b; use bindings::grid::logs::AnonOf1And1Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.raw.to_m(&t[1])]) }
}
mod grid_ev_anon_of1_and2_named { use super::*; use bindings::grid::events::anon_of1_and2_named as b; use bindings::grid::logs::AnonOf1And2Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_anon_of1_and2_bare { use super::*; use bindings::grid::events::anon_of1_and2_bare as b; use bindings::grid::logs::AnonOf1And2Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<bool>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.param2.to_m(&t[2])]) }
}
mod grid_ev_anon_of1_and2_mixed { use super::*; use bindings::grid::events::anon_of1_and2_mixed as b; use bindings::grid::logs::AnonOf1And2Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.param1.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_anon_of1_and3_named { use super::*; use bindings::grid::events::anon_of1_and3_named as b; use bindings::grid::logs::AnonOf1And3Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_anon_of1_and3_bare { use super::*; use bindings::grid::events::anon_of1_and3_bare as b; use bindings::grid::logs::AnonOf1And3Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.param1.to_m(&t[1]), r.param2.to_m(&t[2]), r.param3.to_m(&t[3])]) }
}
mod grid_ev_anon_of1_and3_mixed { use super::*; use bindings::grid::events::anon_of1_and3_mixed as b; use bindings::grid::logs::AnonOf1And3Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1]), r.param2.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_anon_of2_and0_named { use super::*; use bindings::grid::events::anon_of2_and0_named as b; use bindings::grid::logs::AnonOf2And0Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<bool>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1])]) }
}
mod grid_ev_anon_of2_and0_bare { use super::*; use bindings::grid::events::anon_of2_and0_bare as b; use bindings::grid::logs::AnonOf2And0Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Int>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1])]) }
}
mod grid_ev_anon_of2_and0_mixed { use super::*; use bindings::grid::events::anon_of2_and0_mixed as b; use bindings::grid::logs::AnonOf2And0Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Address>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1])]) }
}
mod grid_ev_anon_of2_and1_named { use super::*; use bindings::grid::events::anon_of2_and1_named as b; use bindings::grid::logs::AnonOf2And1Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<bool>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_anon_of2_and1_bare { use super::*; use bindings::grid::events::anon_of2_and1_bare as b; use bindings::grid::logs::AnonOf2And1Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Hash>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.param2.to_m(&t[2])]) }
}
mod grid_ev_anon_of2_and1_mixed { use super::*; use bindings::grid::events::anon_of2_and1_mixed as b; use bindings::grid::logs::AnonOf2And1Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0]), topics::<[bool; 2]>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1]), r.param2.to_m(&t[2])]) }
}
mod grid_ev_anon_of2_and2_named { use super::*; use bindings::grid::events::anon_of2_and2_named as b; use bindings::grid::logs::AnonOf2And2Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<ethabi::Int>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_anon_of2_and2_bare { use super::*; use bindings::grid::events::anon_of2_and2_bare as b; use bindings::grid::logs::AnonOf2And2Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Hash>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.param1.to_m(&t[1]), r.param2.to_m(&t[2]), r.topic3.to_m(&t[3])]) }
}
mod grid_ev_anon_of2_and2_mixed { use super::*; use bindings::grid::events::anon_of2_and2_mixed as b; use bindings::grid::logs::AnonOf2And2Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<bool>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1]), r.data.to_m(&t[2]), r.param3.to_m(&t[3])]) }
}
mod grid_ev_anon_of2_and3_named { use super::*; use bindings::grid::events::anon_of2_and3_named as b; use bindings::grid::logs::AnonOf2And3Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0]), topics::<ethabi::Uint>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3]), r.from.to_m(&t[4])]) }
}
mod grid_ev_anon_of2_and3_bare { use super::*; use bindings::grid::events::anon_of2_and3_bare as b; use bindings::grid::logs::AnonOf2And3Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Address>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.param2.to_m(&t[2]), r.param3.to_m(&t[3]), r.param4.to_m(&t[4])]) }
}
mod grid_ev_anon_of2_and3_mixed { use super::*; use bindings::grid::events::anon_of2_and3_mixed as b; use bindings::grid::logs::AnonOf2And3Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<bool>(&c[0]), topics::<String>(&c[1])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1]), r.topic2.to_m(&t[2]), r.log.to_m(&t[3]), r.param4.to_m(&t[4])]) }
}
mod grid_ev_anon_of3_and0_named { use super::*; use bindings::grid::events::anon_of3_and0_named as b; use bindings::grid::logs::AnonOf3And0Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Hash>(&c[1]), topics::<Vec<Vec<u8>>>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_anon_of3_and0_bare { use super::*; use bindings::grid::events::anon_of3_and0_bare as b; use bindings::grid::logs::AnonOf3And0Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<ethabi::Address>(&c[1]), topics::<bool>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2])]) }
}
mod grid_ev_anon_of3_and0_mixed { use super::*; use bindings::grid::events::anon_of3_and0_mixed as b; use bindings::grid::logs::AnonOf3And0Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<ethabi::Int>(&c[1]), topics::<ethabi::Uint>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1]), r.data.to_m(&t[2])]) }
}
mod grid_ev_anon_of3_and1_named { use super::*; use bindings::grid::events::anon_of3_and1_named as b; use bindings::grid::logs::AnonOf3And1Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Address>(&c[0]), topics::<ethabi::Hash>(&c[1]), topics::<Vec<Vec<u8>>>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_anon_of3_and1_bare { use super::*; use bindings::grid::events::anon_of3_and1_bare as b; use bindings::grid::logs::AnonOf3And1Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<bool>(&c[1]), topics::<String>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2]), r.param3.to_m(&t[3])]) }
}
mod grid_ev_anon_of3_and1_mixed { use super::*; use bindings::grid::events::anon_of3_and1_mixed as b; use bindings::grid::logs::AnonOf3And1Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0]), topics::<ethabi::Uint>(&c[1]), topics::<ethabi::Int>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1]), r.topic2.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_anon_of3_and2_named { use super::*; use bindings::grid::events::anon_of3_and2_named as b; use bindings::grid::logs::AnonOf3And2Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Address>(&c[1]), topics::<[bool; 2]>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3]), r.from.to_m(&t[4])]) }
}
mod grid_ev_anon_of3_and2_bare { use super::*; use bindings::grid::events::anon_of3_and2_bare as b; use bindings::grid::logs::AnonOf3And2Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<bool>(&c[0]), topics::<String>(&c[1]), topics::<ethabi::Int>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.param2.to_m(&t[2]), r.topic3.to_m(&t[3]), r.param4.to_m(&t[4])]) }
}
mod grid_ev_anon_of3_and2_mixed { use super::*; use bindings::grid::events::anon_of3_and2_mixed as b; use bindings::grid::logs::AnonOf3And2Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Hash>(&c[1]), topics::<Vec<Vec<u8>>>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1]), r.data.to_m(&t[2]), r.param3.to_m(&t[3]), r.from.to_m(&t[4])]) }
}
mod grid_ev_anon_of3_and3_named { use super::*; use bindings::grid::events::anon_of3_and3_named as b; use bindings::grid::logs::AnonOf3And3Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<bool>(&c[1]), topics::<ethabi::Address>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3]), r.from.to_m(&t[4]), r.e.to_m(&t[5])]) }
}
mod grid_ev_anon_of3_and3_bare { use super::*; use bindings::grid::events::anon_of3_and3_bare as b; use bindings::grid::logs::AnonOf3And3Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<ethabi::Int>(&c[1]), topics::<ethabi::Uint>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2]), r.param3.to_m(&t[3]), r.param4.to_m(&t[4]), r.param5.to_m(&t[5])]) }
}
mod grid_ev_anon_of3_and3_mixed { use super::*; use bindings::grid::events::anon_of3_and3_mixed as b; use bindings::grid::logs::AnonOf3And3Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0]), topics::<Vec<Vec<u8>>>(&c[1]), topics::<ethabi::Address>(&c[2])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1]), r.param2.to_m(&t[2]), r.log.to_m(&t[3]), r.topic4.to_m(&t[4]), r.e.to_m(&t[5])]) }
}
mod grid_ev_anon_of4_and0_named { use super::*; use bindings::grid::events::anon_of4_and0_named as b; use bindings::grid::logs::AnonOf4And0Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<bool>(&c[1]), topics::<String>(&c[2]), topics::<ethabi::Int>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3])]) }
}
mod grid_ev_anon_of4_and0_bare { use super::*; use bindings::grid::events::anon_of4_and0_bare as b; use bindings::grid::logs::AnonOf4And0Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Hash>(&c[0]), topics::<ethabi::Uint>(&c[1]), topics::<ethabi::Int>(&c[2]), topics::<Vec<Vec<u8>>>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2]), r.topic3.to_m(&t[3])]) }
}
mod grid_ev_anon_of4_and0_mixed { use super::*; use bindings::grid::events::anon_of4_and0_mixed as b; use bindings::grid::logs::AnonOf4And0Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Address>(&c[1]), topics::<[bool; 2]>(&c[2]), topics::<bool>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1]), r.data.to_m(&t[2]), r.topic3.to_m(&t[3])]) }
}
mod grid_ev_anon_of4_and1_named { use super::*; use bindings::grid::events::anon_of4_and1_named as b; use bindings::grid::logs::AnonOf4And1Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<bool>(&c[0]), topics::<ethabi::Int>(&c[1]), topics::<ethabi::Uint>(&c[2]), topics::<String>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3]), r.from.to_m(&t[4])]) }
}
mod grid_ev_anon_of4_and1_bare { use super::*; use bindings::grid::events::anon_of4_and1_bare as b; use bindings::grid::logs::AnonOf4And1Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Hash>(&c[1]), topics::<Vec<Vec<u8>>>(&c[2]), topics::<ethabi::Address>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2]), r.topic3.to_m(&t[3]), r.param4.to_m(&t[4])]) }
}
mod grid_ev_anon_of4_and1_mixed { use super::*; use bindings::grid::events::anon_of4_and1_mixed as b; use bindings::grid::logs::AnonOf4And1Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<String>(&c[1]), topics::<bool>(&c[2]), topics::<ethabi::Address>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.raw.to_m(&t[1]), r.topic2.to_m(&t[2]), r.log.to_m(&t[3]), r.topic4.to_m(&t[4])]) }
}
mod grid_ev_anon_of4_and2_named { use super::*; use bindings::grid::events::anon_of4_and2_named as b; use bindings::grid::logs::AnonOf4And2Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<String>(&c[0]), topics::<ethabi::Int>(&c[1]), topics::<ethabi::Uint>(&c[2]), topics::<ethabi::Hash>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3]), r.from.to_m(&t[4]), r.e.to_m(&t[5])]) }
}
mod grid_ev_anon_of4_and2_bare { use super::*; use bindings::grid::events::anon_of4_and2_bare as b; use bindings::grid::logs::AnonOf4And2Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<Vec<Vec<u8>>>(&c[1]), topics::<ethabi::Address>(&c[2]), topics::<ethabi::Hash>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2]), r.param3.to_m(&t[3]), r.param4.to_m(&t[4]), r.topic5.to_m(&t[5])]) }
}
mod grid_ev_anon_of4_and2_mixed { use super::*; use bindings::grid::events::anon_of4_and2_mixed as b; use bindings::grid::logs::AnonOf4And2Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<[bool; 2]>(&c[0]), topics::<bool>(&c[1]), topics::<String>(&c[2]), topics::<ethabi::Int>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.topic1.to_m(&t[1]), r.data.to_m(&t[2]), r.topic3.to_m(&t[3]), r.from.to_m(&t[4]), r.param5.to_m(&t[5])]) }
}
mod grid_ev_anon_of4_and3_named { use super::*; use bindings::grid::events::anon_of4_and3_named as b; use bindings::grid::logs::AnonOf4And3Named as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Uint>(&c[0]), topics::<ethabi::Hash>(&c[1]), topics::<Vec<Vec<u8>>>(&c[2]), topics::<ethabi::Int>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.f.to_m(&t[0]), r.raw.to_m(&t[1]), r.data.to_m(&t[2]), r.log.to_m(&t[3]), r.from.to_m(&t[4]), r.e.to_m(&t[5]), r.c.to_m(&t[6])]) }
}
mod grid_ev_anon_of4_and3_bare { use super::*; use bindings::grid::events::anon_of4_and3_bare as b; use bindings::grid::logs::AnonOf4And3Bare as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<Vec<Vec<u8>>>(&c[0]), topics::<ethabi::Address>(&c[1]), topics::<[bool; 2]>(&c[2]), topics::<bool>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.topic0.to_m(&t[0]), r.topic1.to_m(&t[1]), r.topic2.to_m(&t[2]), r.topic3.to_m(&t[3]), r.param4.to_m(&t[4]), r.param5.to_m(&t[5]), r.param6.to_m(&t[6])]) }
}
mod grid_ev_anon_of4_and3_mixed { use super::*; use bindings::grid::events::anon_of4_and3_mixed as b; use bindings::grid::logs::AnonOf4And3Mixed as L;
	pub fn event() -> ethabi::Event { b::event() }
	pub fn filter(c: &[Crit]) -> ethabi::TopicFilter { b::filter(topics::<ethabi::Int>(&c[0]), topics::<ethabi::Uint>(&c[1]), topics::<bool>(&c[2]), topics::<String>(&c[3])) }
	pub fn wildcard() -> ethabi::TopicFilter { b::wildcard_filter() }
	pub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> { let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![r.param0.to_m(&t[0]), r.raw.to_m(&t[1]), r.topic2.to_m(&t[2]), r.log.to_m(&t[3]), r.topic4.to_m(&t[4]), r.e.to_m(&t[5]), r.topic6.to_m(&t[6])]) }
}
mod grid_pure_0_to_0 { use super::*; use bindings::grid::functions::pure_0_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_pure_0_to_1 { use super::*; use bindings::grid::functions::pure_0_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_pure_0_to_2 { use super::*; use bindings::grid::functions::pure_0_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_pure_0_to_3 { use super::*; use bindings::grid::functions::pure_0_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_pure_1_to_0 { use super::*; use bindings::grid::functions::pure_1_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<u8> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<u8> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_pure_1_to_1 { use super::*; use bindings::grid::functions::pure_1_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 8] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 8] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_pure_1_to_2 { use super::*; use bindings::grid::functions::pure_1_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_pure_1_to_3 { use super::*; use bindings::grid::functions::pure_1_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<String> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<String> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_pure_2_to_0 { use super::*; use bindings::grid::functions::pure_2_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_pure_2_to_1 { use super::*; use bindings::grid::functions::pure_2_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); let x1: Vec<Vec<u8>> = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let x1: Vec<Vec<u8>> = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_pure_2_to_2 { use super::*; use bindings::grid::functions::pure_2_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: String = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: String = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_pure_2_to_3 { use super::*; use bindings::grid::functions::pure_2_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_pure_3_to_0 { use super::*; use bindings::grid::functions::pure_3_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [bool; 2] = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [bool; 2] = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_pure_3_to_1 { use super::*; use bindings::grid::functions::pure_3_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: Vec<String> = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: Vec<String> = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_pure_3_to_2 { use super::*; use bindings::grid::functions::pure_3_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_pure_3_to_3 { use super::*; use bindings::grid::functions::pure_3_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_view_0_to_0 { use super::*; use bindings::grid::functions::view_0_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_view_0_to_1 { use super::*; use bindings::grid::functions::view_0_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_view_0_to_2 { use super::*; use bindings::grid::functions::view_0_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_view_0_to_3 { use super::*; use bindings::grid::functions::view_0_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_view_1_to_0 { use super::*; use bindings::grid::functions::view_1_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<u8> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<u8> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_view_1_to_1 { use super::*; use bindings::grid::functions::view_1_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 8] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 8] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_view_1_to_2 { use super::*; use bindings::grid::functions::view_1_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_view_1_to_3 { use super::*; use bindings::grid::functions::view_1_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<String> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<String> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_view_2_to_0 { use super::*; use bindings::grid::functions::view_2_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_view_2_to_1 { use super::*; use bindings::grid::functions::view_2_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); let x1: Vec<Vec<u8>> = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let x1: Vec<Vec<u8>> = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_view_2_to_2 { use super::*; use bindings::grid::functions::view_2_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: String = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: String = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_view_2_to_3 { use super::*; use bindings::grid::functions::view_2_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_view_3_to_0 { use super::*; use bindings::grid::functions::view_3_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [bool; 2] = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [bool; 2] = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_view_3_to_1 { use super::*; use bindings::grid::functions::view_3_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: Vec<String> = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: Vec<String> = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_view_3_to_2 { use super::*; use bindings::grid::functions::view_3_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_view_3_to_3 { use super::*; use bindings::grid::functions::view_3_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_nonpayable_0_to_0 { use super::*; use bindings::grid::functions::nonpayable_0_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_nonpayable_0_to_1 { use super::*; use bindings::grid::functions::nonpayable_0_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_nonpayable_0_to_2 { use super::*; use bindings::grid::functions::nonpayable_0_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_nonpayable_0_to_3 { use super::*; use bindings::grid::functions::nonpayable_0_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_nonpayable_1_to_0 { use super::*; use bindings::grid::functions::nonpayable_1_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<u8> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<u8> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_nonpayable_1_to_1 { use super::*; use bindings::grid::functions::nonpayable_1_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 8] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 8] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_nonpayable_1_to_2 { use super::*; use bindings::grid::functions::nonpayable_1_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_nonpayable_1_to_3 { use super::*; use bindings::grid::functions::nonpayable_1_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<String> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<String> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_nonpayable_2_to_0 { use super::*; use bindings::grid::functions::nonpayable_2_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_nonpayable_2_to_1 { use super::*; use bindings::grid::functions::nonpayable_2_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); let x1: Vec<Vec<u8>> = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let x1: Vec<Vec<u8>> = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_nonpayable_2_to_2 { use super::*; use bindings::grid::functions::nonpayable_2_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: String = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: String = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_nonpayable_2_to_3 { use super::*; use bindings::grid::functions::nonpayable_2_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_nonpayable_3_to_0 { use super::*; use bindings::grid::functions::nonpayable_3_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [bool; 2] = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [bool; 2] = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_nonpayable_3_to_1 { use super::*; use bindings::grid::functions::nonpayable_3_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: Vec<String> = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: Vec<String> = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_nonpayable_3_to_2 { use super::*; use bindings::grid::functions::nonpayable_3_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_nonpayable_3_to_3 { use super::*; use bindings::grid::functions::nonpayable_3_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_payable_0_to_0 { use super::*; use bindings::grid::functions::payable_0_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_payable_0_to_1 { use super::*; use bindings::grid::functions::payable_0_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_payable_0_to_2 { use super::*; use bindings::grid::functions::payable_0_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_payable_0_to_3 { use super::*; use bindings::grid::functions::payable_0_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { b::encode_input() }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let (d, k) = b::call(); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_payable_1_to_0 { use super::*; use bindings::grid::functions::payable_1_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<u8> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<u8> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_payable_1_to_1 { use super::*; use bindings::grid::functions::payable_1_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [u8; 8] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [u8; 8] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_payable_1_to_2 { use super::*; use bindings::grid::functions::payable_1_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [ethabi::Int; 2] = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [ethabi::Int; 2] = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_payable_1_to_3 { use super::*; use bindings::grid::functions::payable_1_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<String> = V::from_m(&a[0]); b::encode_input(x0) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<String> = V::from_m(&a[0]); let (d, k) = b::call(x0); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_payable_2_to_0 { use super::*; use bindings::grid::functions::payable_2_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: ethabi::Int = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_payable_2_to_1 { use super::*; use bindings::grid::functions::payable_2_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Address = V::from_m(&a[0]); let x1: Vec<Vec<u8>> = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Address = V::from_m(&a[0]); let x1: Vec<Vec<u8>> = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_payable_2_to_2 { use super::*; use bindings::grid::functions::payable_2_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: String = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: String = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_payable_2_to_3 { use super::*; use bindings::grid::functions::payable_2_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); b::encode_input(x0, x1) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Hash = V::from_m(&a[0]); let x1: bool = V::from_m(&a[1]); let (d, k) = b::call(x0, x1); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
mod grid_payable_3_to_0 { use super::*; use bindings::grid::functions::payable_3_to_0 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: [bool; 2] = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: [bool; 2] = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: [ethabi::Int; 2] = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ let () = r; vec![] }) })) }
}
mod grid_payable_3_to_1 { use super::*; use bindings::grid::functions::payable_3_to_1 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: Vec<String> = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: ethabi::Int = V::from_m(&a[0]); let x1: Vec<ethabi::Uint> = V::from_m(&a[1]); let x2: Vec<String> = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.to_m(&t[0])] }) })) }
}
mod grid_payable_3_to_2 { use super::*; use bindings::grid::functions::payable_3_to_2 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: Vec<Vec<u8>> = V::from_m(&a[0]); let x1: ethabi::Address = V::from_m(&a[1]); let x2: ethabi::Uint = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1])] }) })) }
}
mod grid_payable_3_to_3 { use super::*; use bindings::grid::functions::payable_3_to_3 as b;
	pub fn encode(a: &[MVal]) -> Vec<u8> { let x0: bool = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); b::encode_input(x0, x1, x2) }
	pub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> { let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) }
	pub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) { let x0: bool = V::from_m(&a[0]); let x1: Vec<u8> = V::from_m(&a[1]); let x2: ethabi::Address = V::from_m(&a[2]); let (d, k) = b::call(x0, x1, x2); (d, Box::new(move |t, d| { let r = k.decode(d).map_err(|e| e.to_string())?; Ok({ vec![r.0.to_m(&t[0]), r.1.to_m(&t[1]), r.2.to_m(&t[2])] }) })) }
}
fn grid_ctor(code: Vec<u8>, a: &[MVal]) -> Vec<u8> { let x0: ethabi::Uint = V::from_m(&a[0]); let x1: String = V::from_m(&a[1]); let x2: [Vec<u8>; 2] = V::from_m(&a[2]); let x3: bool = V::from_m(&a[3]); bindings::grid::constructor(code, x0, x1, x2, x3) }
pub fn abis() -> Vec<Abi> {
	vec![
		Abi { name: "shapes", text: include_str!("../../bindings/abi/shapes.abi"), ctor: Some(shapes_ctor), fns: vec![
			FnGlue { name: "fn_address_0", encode: shapes_fn_address_0::encode, decode: shapes_fn_address_0::decode, call: shapes_fn_address_0::call },
			FnGlue { name: "fn_address_1", encode: shapes_fn_address_1::encode, decode: shapes_fn_address_1::decode, call: shapes_fn_address_1::call },
			FnGlue { name: "fn_address_2", encode: shapes_fn_address_2::encode, decode: shapes_fn_address_2::decode, call: shapes_fn_address_2::call },
			FnGlue { name: "fn_address_3", encode: shapes_fn_address_3::encode, decode: shapes_fn_address_3::decode, call: shapes_fn_address_3::call },
			FnGlue { name: "fn_address_4", encode: shapes_fn_address_4::encode, decode: shapes_fn_address_4::decode, call: shapes_fn_address_4::call },
			FnGlue { name: "fn_address_5", encode: shapes_fn_address_5::encode, decode: shapes_fn_address_5::decode, call: shapes_fn_address_5::call },
			FnGlue { name: "fn_address_6", encode: shapes_fn_address_6::encode, decode: shapes_fn_address_6::decode, call: shapes_fn_address_6::call },
			FnGlue { name: "fn_address_7", encode: shapes_fn_address_7::encode, decode: shapes_fn_address_7::decode, call: shapes_fn_address_7::call },
			FnGlue { name: "fn_address_8", encode: shapes_fn_address_8::encode, decode: shapes_fn_address_8::decode, call: shapes_fn_address_8::call },
			FnGlue { name: "fn_bytes_0", encode: shapes_fn_bytes_0::encode, decode: shapes_fn_bytes_0::decode, call: shapes_fn_bytes_0::call },
			FnGlue { name: "fn_bytes_1", encode: shapes_fn_bytes_1::encode, decode: shapes_fn_bytes_1::decode, call: shapes_fn_bytes_1::call },
			FnGlue { name: "fn_bytes_2", encode: shapes_fn_bytes_2::encode, decode: shapes_fn_bytes_2::decode, call: shapes_fn_bytes_2::call },
			FnGlue { name: "fn_bytes_3", encode: shapes_fn_bytes_3::encode, decode: shapes_fn_bytes_3::decode, call: shapes_fn_bytes_3::call },
			FnGlue { name: "fn_bytes_4", encode: shapes_fn_bytes_4::encode, decode: shapes_fn_bytes_4::decode, call: shapes_fn_bytes_4::call },
			FnGlue { name: "fn_bytes_5", encode: shapes_fn_bytes_5::encode, decode: shapes_fn_bytes_5::decode, call: shapes_fn_bytes_5::call },
			FnGlue { name: "fn_bytes_6", encode: shapes_fn_bytes_6::encode, decode: shapes_fn_bytes_6::decode, call: shapes_fn_bytes_6::call },
			FnGlue { name: "fn_bytes_7", encode: shapes_fn_bytes_7::encode, decode: shapes_fn_bytes_7::decode, call: shapes_fn_bytes_7::call },
			FnGlue { name: "fn_bytes_8", encode: shapes_fn_bytes_8::encode, decode: shapes_fn_bytes_8::decode, call: shapes_fn_bytes_8::call },
			FnGlue { name: "fn_bytes1_0", encode: shapes_fn_bytes1_0::encode, decode: shapes_fn_bytes1_0::decode, call: shapes_fn_bytes1_0::call },
			FnGlue { name: "fn_bytes1_1", encode: shapes_fn_bytes1_1::encode, decode: shapes_fn_bytes1_1::decode, call: shapes_fn_bytes1_1::call },
			FnGlue { name: "fn_bytes1_2", encode: shapes_fn_bytes1_2::encode, decode: shapes_fn_bytes1_2::decode, call: shapes_fn_bytes1_2::call },
			FnGlue { name: "fn_bytes1_3", encode: shapes_fn_bytes1_3::encode, decode: shapes_fn_bytes1_3::decode, call: shapes_fn_bytes1_3::call },
			FnGlue { name: "fn_bytes1_4", encode: shapes_fn_bytes1_4::encode, decode: shapes_fn_bytes1_4::decode, call: shapes_fn_bytes1_4::call },
			FnGlue { name: "fn_bytes1_5", encode: shapes_fn_bytes1_5::encode, decode: shapes_fn_bytes1_5::decode, call: shapes_fn_bytes1_5::call },
			FnGlue { name: "fn_bytes1_6", encode: shapes_fn_bytes1_6::encode, decode: shapes_fn_bytes1_6::decode, call: shapes_fn_bytes1_6::call },
			FnGlue { name: "fn_bytes1_7", encode: shapes_fn_bytes1_7::encode, decode: shapes_fn_bytes1_7::decode, call: shapes_fn_bytes1_7::call },
			FnGlue { name: "fn_bytes1_8", encode: shapes_fn_bytes1_8::encode, decode: shapes_fn_bytes1_8::decode, call: shapes_fn_bytes1_8::call },
			FnGlue { name: "fn_bytes4_0", encode: shapes_fn_bytes4_0::encode, decode: shapes_fn_bytes4_0::decode, call: shapes_fn_bytes4_0::call },
			FnGlue { name: "fn_bytes4_1", encode: shapes_fn_bytes4_1::encode, decode: shapes_fn_bytes4_1::decode, call: shapes_fn_bytes4_1::call },
			FnGlue { name: "fn_bytes4_2", encode: shapes_fn_bytes4_2::encode, decode: shapes_fn_bytes4_2::decode, call: shapes_fn_bytes4_2::call },
			FnGlue { name: "fn_bytes4_3", encode: shapes_fn_bytes4_3::encode, decode: shapes_fn_bytes4_3::decode, call: shapes_fn_bytes4_3::call },
			FnGlue { name: "fn_bytes4_4", encode: shapes_fn_bytes4_4::encode, decode: shapes_fn_bytes4_4::decode, call: shapes_fn_bytes4_4::call },
			FnGlue { name: "fn_bytes4_5", encode: shapes_fn_bytes4_5::encode, decode: shapes_fn_bytes4_5::decode, call: shapes_fn_bytes4_5::call },
			FnGlue { name: "fn_bytes4_6", encode: shapes_fn_bytes4_6::encode, decode: shapes_fn_bytes4_6::decode, call: shapes_fn_bytes4_6::call },
			FnGlue { name: "fn_bytes4_7", encode: shapes_fn_bytes4_7::encode, decode: shapes_fn_bytes4_7::decode, call: shapes_fn_bytes4_7::call },
			FnGlue { name: "fn_bytes4_8", encode: shapes_fn_bytes4_8::encode, decode: shapes_fn_bytes4_8::decode, call: shapes_fn_bytes4_8::call },
			FnGlue { name: "fn_bytes20_0", encode: shapes_fn_bytes20_0::encode, decode: shapes_fn_bytes20_0::decode, call: shapes_fn_bytes20_0::call },
			FnGlue { name: "fn_bytes20_1", encode: shapes_fn_bytes20_1::encode, decode: shapes_fn_bytes20_1::decode, call: shapes_fn_bytes20_1::call },
			FnGlue { name: "fn_bytes20_2", encode: shapes_fn_bytes20_2::encode, decode: shapes_fn_bytes20_2::decode, call: shapes_fn_bytes20_2::call },
			FnGlue { name: "fn_bytes20_3", encode: shapes_fn_bytes20_3::encode, decode: shapes_fn_bytes20_3::decode, call: shapes_fn_bytes20_3::call },
			FnGlue { name: "fn_bytes20_4", encode: shapes_fn_bytes20_4::encode, decode: shapes_fn_bytes20_4::decode, call: shapes_fn_bytes20_4::call },
			FnGlue { name: "fn_bytes20_5", encode: shapes_fn_bytes20_5::encode, decode: shapes_fn_bytes20_5::decode, call: shapes_fn_bytes20_5::call },
			FnGlue { name: "fn_bytes20_6", encode: shapes_fn_bytes20_6::encode, decode: shapes_fn_bytes20_6::decode, call: shapes_fn_bytes20_6::call },
			FnGlue { name: "fn_bytes20_7", encode: shapes_fn_bytes20_7::encode, decode: shapes_fn_bytes20_7::decode, call: shapes_fn_bytes20_7::call },
			FnGlue { name: "fn_bytes20_8", encode: shapes_fn_bytes20_8::encode, decode: shapes_fn_bytes20_8::decode, call: shapes_fn_bytes20_8::call },
			FnGlue { name: "fn_bytes32_0", encode: shapes_fn_bytes32_0::encode, decode: shapes_fn_bytes32_0::decode, call: shapes_fn_bytes32_0::call },
			FnGlue { name: "fn_bytes32_1", encode: shapes_fn_bytes32_1::encode, decode: shapes_fn_bytes32_1::decode, call: shapes_fn_bytes32_1::call },
			FnGlue { name: "fn_bytes32_2", encode: shapes_fn_bytes32_2::encode, decode: shapes_fn_bytes32_2::decode, call: shapes_fn_bytes32_2::call },
			FnGlue { name: "fn_bytes32_3", encode: shapes_fn_bytes32_3::encode, decode: shapes_fn_bytes32_3::decode, call: shapes_fn_bytes32_3::call },
			FnGlue { name: "fn_bytes32_4", encode: shapes_fn_bytes32_4::encode, decode: shapes_fn_bytes32_4::decode, call: shapes_fn_bytes32_4::call },
			FnGlue { name: "fn_bytes32_5", encode: shapes_fn_bytes32_5::encode, decode: shapes_fn_bytes32_5::decode, call: shapes_fn_bytes32_5::call },
			FnGlue { name: "fn_bytes32_6", encode: shapes_fn_bytes32_6::encode, decode: shapes_fn_bytes32_6::decode, call: shapes_fn_bytes32_6::call },
			FnGlue { name: "fn_bytes32_7", encode: shapes_fn_bytes32_7::encode, decode: shapes_fn_bytes32_7::decode, call: shapes_fn_bytes32_7::call },
			FnGlue { name: "fn_bytes32_8", encode: shapes_fn_bytes32_8::encode, decode: shapes_fn_bytes32_8::decode, call: shapes_fn_bytes32_8::call },
			FnGlue { name: "fn_int8_0", encode: shapes_fn_int8_0::encode, decode: shapes_fn_int8_0::decode, call: shapes_fn_int8_0::call },
			FnGlue { name: "fn_int8_1", encode: shapes_fn_int8_1::encode, decode: shapes_fn_int8_1::decode, call: shapes_fn_int8_1::call },
			FnGlue { name: "fn_int8_2", encode: shapes_fn_int8_2::encode, decode: shapes_fn_int8_2::decode, call: shapes_fn_int8_2::call },
			FnGlue { name: "fn_int8_3", encode: shapes_fn_int8_3::encode, decode: shapes_fn_int8_3::decode, call: shapes_fn_int8_3::call },
			FnGlue { name: "fn_int8_4", encode: shapes_fn_int8_4::encode, decode: shapes_fn_int8_4::decode, call: shapes_fn_int8_4::call },
			FnGlue { name: "fn_int8_5", encode: shapes_fn_int8_5::encode, decode: shapes_fn_int8_5::decode, call: shapes_fn_int8_5::call },
			FnGlue { name: "fn_int8_6", encode: shapes_fn_int8_6::encode, decode: shapes_fn_int8_6::decode, call: shapes_fn_int8_6::call },
			FnGlue { name: "fn_int8_7", encode: shapes_fn_int8_7::encode, decode: shapes_fn_int8_7::decode, call: shapes_fn_int8_7::call },
			FnGlue { name: "fn_int8_8", encode: shapes_fn_int8_8::encode, decode: shapes_fn_int8_8::decode, call: shapes_fn_int8_8::call },
			FnGlue { name: "fn_int256_0", encode: shapes_fn_int256_0::encode, decode: shapes_fn_int256_0::decode, call: shapes_fn_int256_0::call },
			FnGlue { name: "fn_int256_1", encode: shapes_fn_int256_1::encode, decode: shapes_fn_int256_1::decode, call: shapes_fn_int256_1::call },
			FnGlue { name: "fn_int256_2", encode: shapes_fn_int256_2::encode, decode: shapes_fn_int256_2::decode, call: shapes_fn_int256_2::call },
			FnGlue { name: "fn_int256_3", encode: shapes_fn_int256_3::encode, decode: shapes_fn_int256_3::decode, call: shapes_fn_int256_3::call },
			FnGlue { name: "fn_int256_4", encode: shapes_fn_int256_4::encode, decode: shapes_fn_int256_4::decode, call: shapes_fn_int256_4::call },
			FnGlue { name: "fn_int256_5", encode: shapes_fn_int256_5::encode, decode: shapes_fn_int256_5::decode, call: shapes_fn_int256_5::call },
			FnGlue { name: "fn_int256_6", encode: shapes_fn_int256_6::encode, decode: shapes_fn_int256_6::decode, call: shapes_fn_int256_6::call },
			FnGlue { name: "fn_int256_7", encode: shapes_fn_int256_7::encode, decode: shapes_fn_int256_7::decode, call: shapes_fn_int256_7::call },
			FnGlue { name: "fn_int256_8", encode: shapes_fn_int256_8::encode, decode: shapes_fn_int256_8::decode, call: shapes_fn_int256_8::call },
			FnGlue { name: "fn_uint8_0", encode: shapes_fn_uint8_0::encode, decode: shapes_fn_uint8_0::decode, call: shapes_fn_uint8_0::call },
			FnGlue { name: "fn_uint8_1", encode: shapes_fn_uint8_1::encode, decode: shapes_fn_uint8_1::decode, call: shapes_fn_uint8_1::call },
			FnGlue { name: "fn_uint8_2", encode: shapes_fn_uint8_2::encode, decode: shapes_fn_uint8_2::decode, call: shapes_fn_uint8_2::call },
			FnGlue { name: "fn_uint8_3", encode: shapes_fn_uint8_3::encode, decode: shapes_fn_uint8_3::decode, call: shapes_fn_uint8_3::call },
			FnGlue { name: "fn_uint8_4", encode: shapes_fn_uint8_4::encode, decode: shapes_fn_uint8_4::decode, call: shapes_fn_uint8_4::call },
			FnGlue { name: "fn_uint8_5", encode: shapes_fn_uint8_5::encode, decode: shapes_fn_uint8_5::decode, call: shapes_fn_uint8_5::call },
			FnGlue { name: "fn_uint8_6", encode: shapes_fn_uint8_6::encode, decode: shapes_fn_uint8_6::decode, call: shapes_fn_uint8_6::call },
			FnGlue { name: "fn_uint8_7", encode: shapes_fn_uint8_7::encode, decode: shapes_fn_uint8_7::decode, call: shapes_fn_uint8_7::call },
			FnGlue { name: "fn_uint8_8", encode: shapes_fn_uint8_8::encode, decode: shapes_fn_uint8_8::decode, call: shapes_fn_uint8_8::call },
			FnGlue { name: "fn_uint64_0", encode: shapes_fn_uint64_0::encode, decode: shapes_fn_uint64_0::decode, call: shapes_fn_uint64_0::call },
			FnGlue { name: "fn_uint64_1", encode: shapes_fn_uint64_1::encode, decode: shapes_fn_uint64_1::decode, call: shapes_fn_uint64_1::call },
			FnGlue { name: "fn_uint64_2", encode: shapes_fn_uint64_2::encode, decode: shapes_fn_uint64_2::decode, call: shapes_fn_uint64_2::call },
			FnGlue { name: "fn_uint64_3", encode: shapes_fn_uint64_3::encode, decode: shapes_fn_uint64_3::decode, call: shapes_fn_uint64_3::call },
			FnGlue { name: "fn_uint64_4", encode: shapes_fn_uint64_4::encode, decode: shapes_fn_uint64_4::decode, call: shapes_fn_uint64_4::call },
			FnGlue { name: "fn_uint64_5", encode: shapes_fn_uint64_5::encode, decode: shapes_fn_uint64_5::decode, call: shapes_fn_uint64_5::call },
			FnGlue { name: "fn_uint64_6", encode: shapes_fn_uint64_6::encode, decode: shapes_fn_uint64_6::decode, call: shapes_fn_uint64_6::call },
			FnGlue { name: "fn_uint64_7", encode: shapes_fn_uint64_7::encode, decode: shapes_fn_uint64_7::decode, call: shapes_fn_uint64_7::call },
			FnGlue { name: "fn_uint64_8", encode: shapes_fn_uint64_8::encode, decode: shapes_fn_uint64_8::decode, call: shapes_fn_uint64_8::call },
			FnGlue { name: "fn_uint256_0", encode: shapes_fn_uint256_0::encode, decode: shapes_fn_uint256_0::decode, call: shapes_fn_uint256_0::call },
			FnGlue { name: "fn_uint256_1", encode: shapes_fn_uint256_1::encode, decode: shapes_fn_uint256_1::decode, call: shapes_fn_uint256_1::call },
			FnGlue { name: "fn_uint256_2", encode: shapes_fn_uint256_2::encode, decode: shapes_fn_uint256_2::decode, call: shapes_fn_uint256_2::call },
			FnGlue { name: "fn_uint256_3", encode: shapes_fn_uint256_3::encode, decode: shapes_fn_uint256_3::decode, call: shapes_fn_uint256_3::call },
			FnGlue { name: "fn_uint256_4", encode: shapes_fn_uint256_4::encode, decode: shapes_fn_uint256_4::decode, call: shapes_fn_uint256_4::call },
			FnGlue { name: "fn_uint256_5", encode: shapes_fn_uint256_5::encode, decode: shapes_fn_uint256_5::decode, call: shapes_fn_uint256_5::call },
			FnGlue { name: "fn_uint256_6", encode: shapes_fn_uint256_6::encode, decode: shapes_fn_uint256_6::decode, call: shapes_fn_uint256_6::call },
			FnGlue { name: "fn_uint256_7", encode: shapes_fn_uint256_7::encode, decode: shapes_fn_uint256_7::decode, call: shapes_fn_uint256_7::call },
			FnGlue { name: "fn_uint256_8", encode: shapes_fn_uint256_8::encode, decode: shapes_fn_uint256_8::decode, call: shapes_fn_uint256_8::call },
			FnGlue { name: "fn_bool_0", encode: shapes_fn_bool_0::encode, decode: shapes_fn_bool_0::decode, call: shapes_fn_bool_0::call },
			FnGlue { name: "fn_bool_1", encode: shapes_fn_bool_1::encode, decode: shapes_fn_bool_1::decode, call: shapes_fn_bool_1::call },
			FnGlue { name: "fn_bool_2", encode: shapes_fn_bool_2::encode, decode: shapes_fn_bool_2::decode, call: shapes_fn_bool_2::call },
			FnGlue { name: "fn_bool_3", encode: shapes_fn_bool_3::encode, decode: shapes_fn_bool_3::decode, call: shapes_fn_bool_3::call },
			FnGlue { name: "fn_bool_4", encode: shapes_fn_bool_4::encode, decode: shapes_fn_bool_4::decode, call: shapes_fn_bool_4::call },
			FnGlue { name: "fn_bool_5", encode: shapes_fn_bool_5::encode, decode: shapes_fn_bool_5::decode, call: shapes_fn_bool_5::call },
			FnGlue { name: "fn_bool_6", encode: shapes_fn_bool_6::encode, decode: shapes_fn_bool_6::decode, call: shapes_fn_bool_6::call },
			FnGlue { name: "fn_bool_7", encode: shapes_fn_bool_7::encode, decode: shapes_fn_bool_7::decode, call: shapes_fn_bool_7::call },
			FnGlue { name: "fn_bool_8", encode: shapes_fn_bool_8::encode, decode: shapes_fn_bool_8::decode, call: shapes_fn_bool_8::call },
			FnGlue { name: "fn_string_0", encode: shapes_fn_string_0::encode, decode: shapes_fn_string_0::decode, call: shapes_fn_string_0::call },
			FnGlue { name: "fn_string_1", encode: shapes_fn_string_1::encode, decode: shapes_fn_string_1::decode, call: shapes_fn_string_1::call },
			FnGlue { name: "fn_string_2", encode: shapes_fn_string_2::encode, decode: shapes_fn_string_2::decode, call: shapes_fn_string_2::call },
			FnGlue { name: "fn_string_3", encode: shapes_fn_string_3::encode, decode: shapes_fn_string_3::decode, call: shapes_fn_string_3::call },
			FnGlue { name: "fn_string_4", encode: shapes_fn_string_4::encode, decode: shapes_fn_string_4::decode, call: shapes_fn_string_4::call },
			FnGlue { name: "fn_string_5", encode: shapes_fn_string_5::encode, decode: shapes_fn_string_5::decode, call: shapes_fn_string_5::call },
			FnGlue { name: "fn_string_6", encode: shapes_fn_string_6::encode, decode: shapes_fn_string_6::decode, call: shapes_fn_string_6::call },
			FnGlue { name: "fn_string_7", encode: shapes_fn_string_7::encode, decode: shapes_fn_string_7::decode, call: shapes_fn_string_7::call },
			FnGlue { name: "fn_string_8", encode: shapes_fn_string_8::encode, decode: shapes_fn_string_8::decode, call: shapes_fn_string_8::call },
		], evs: vec![
		] },
		Abi { name: "token", text: include_str!("../../bindings/abi/token.abi"), ctor: Some(token_ctor), fns: vec![
			FnGlue { name: "balanceOf", encode: token_balance_of::encode, decode: token_balance_of::decode, call: token_balance_of::call },
			FnGlue { name: "transfer", encode: token_transfer::encode, decode: token_transfer::decode, call: token_transfer::call },
			FnGlue { name: "transferFrom", encode: token_transfer_from::encode, decode: token_transfer_from::decode, call: token_transfer_from::call },
			FnGlue { name: "totalSupply", encode: token_total_supply::encode, decode: token_total_supply::decode, call: token_total_supply::call },
			FnGlue { name: "name", encode: token_name::encode, decode: token_name::decode, call: token_name::call },
			FnGlue { name: "getReserves", encode: token_get_reserves::encode, decode: token_get_reserves::decode, call: token_get_reserves::call },
			FnGlue { name: "setData", encode: token_set_data::encode, decode: token_set_data::decode, call: token_set_data::call },
			FnGlue { name: "safeBatchTransferFrom", encode: token_safe_batch_transfer_from::encode, decode: token_safe_batch_transfer_from::decode, call: token_safe_batch_transfer_from::call },
			FnGlue { name: "balanceOfBatch", encode: token_balance_of_batch::encode, decode: token_balance_of_batch::decode, call: token_balance_of_batch::call },
			FnGlue { name: "multicall", encode: token_multicall::encode, decode: token_multicall::decode, call: token_multicall::call },
			FnGlue { name: "supportsInterface", encode: token_supports_interface::encode, decode: token_supports_interface::decode, call: token_supports_interface::call },
			FnGlue { name: "permit", encode: token_permit::encode, decode: token_permit::decode, call: token_permit::call },
		], evs: vec![
			EvGlue { name: "Transfer", event: token_ev_transfer::event, filter: token_ev_transfer::filter, wildcard: token_ev_transfer::wildcard, parse: token_ev_transfer::parse },
			EvGlue { name: "Approval", event: token_ev_approval::event, filter: token_ev_approval::filter, wildcard: token_ev_approval::wildcard, parse: token_ev_approval::parse },
			EvGlue { name: "TransferBatch", event: token_ev_transfer_batch::event, filter: token_ev_transfer_batch::filter, wildcard: token_ev_transfer_batch::wildcard, parse: token_ev_transfer_batch::parse },
			EvGlue { name: "NameRegistered", event: token_ev_name_registered::event, filter: token_ev_name_registered::filter, wildcard: token_ev_name_registered::wildcard, parse: token_ev_name_registered::parse },
		] },
		Abi { name: "wide", text: include_str!("../../bindings/abi/wide.abi"), ctor: Some(wide_ctor), fns: vec![
			FnGlue { name: "omega_kappa_0", encode: wide_omega_kappa_0::encode, decode: wide_omega_kappa_0::decode, call: wide_omega_kappa_0::call },
			FnGlue { name: "deltaGammaNo1", encode: wide_delta_gamma_no1::encode, decode: wide_delta_gamma_no1::decode, call: wide_delta_gamma_no1::call },
			FnGlue { name: "omega_sigma_2", encode: wide_omega_sigma_2::encode, decode: wide_omega_sigma_2::decode, call: wide_omega_sigma_2::call },
			FnGlue { name: "zetaOmegaNo3", encode: wide_zeta_omega_no3::encode, decode: wide_zeta_omega_no3::decode, call: wide_zeta_omega_no3::call },
			FnGlue { name: "delta_gamma_4", encode: wide_delta_gamma_4::encode, decode: wide_delta_gamma_4::decode, call: wide_delta_gamma_4::call },
			FnGlue { name: "zetaBetaNo5", encode: wide_zeta_beta_no5::encode, decode: wide_zeta_beta_no5::decode, call: wide_zeta_beta_no5::call },
			FnGlue { name: "alpha_sigma_6", encode: wide_alpha_sigma_6::encode, decode: wide_alpha_sigma_6::decode, call: wide_alpha_sigma_6::call },
			FnGlue { name: "omegaSigmaNo7", encode: wide_omega_sigma_no7::encode, decode: wide_omega_sigma_no7::decode, call: wide_omega_sigma_no7::call },
			FnGlue { name: "gamma_zeta_8", encode: wide_gamma_zeta_8::encode, decode: wide_gamma_zeta_8::decode, call: wide_gamma_zeta_8::call },
			FnGlue { name: "betaKappaNo9", encode: wide_beta_kappa_no9::encode, decode: wide_beta_kappa_no9::decode, call: wide_beta_kappa_no9::call },
			FnGlue { name: "beta_zeta_10", encode: wide_beta_zeta_10::encode, decode: wide_beta_zeta_10::decode, call: wide_beta_zeta_10::call },
			FnGlue { name: "sigmaDeltaNo11", encode: wide_sigma_delta_no11::encode, decode: wide_sigma_delta_no11::decode, call: wide_sigma_delta_no11::call },
			FnGlue { name: "gamma_alpha_12", encode: wide_gamma_alpha_12::encode, decode: wide_gamma_alpha_12::decode, call: wide_gamma_alpha_12::call },
			FnGlue { name: "betaAlphaNo13", encode: wide_beta_alpha_no13::encode, decode: wide_beta_alpha_no13::decode, call: wide_beta_alpha_no13::call },
			FnGlue { name: "delta_sigma_14", encode: wide_delta_sigma_14::encode, decode: wide_delta_sigma_14::decode, call: wide_delta_sigma_14::call },
			FnGlue { name: "omegaDeltaNo15", encode: wide_omega_delta_no15::encode, decode: wide_omega_delta_no15::decode, call: wide_omega_delta_no15::call },
			FnGlue { name: "gamma_kappa_16", encode: wide_gamma_kappa_16::encode, decode: wide_gamma_kappa_16::decode, call: wide_gamma_kappa_16::call },
			FnGlue { name: "deltaBetaNo17", encode: wide_delta_beta_no17::encode, decode: wide_delta_beta_no17::decode, call: wide_delta_beta_no17::call },
			FnGlue { name: "kappa_delta_18", encode: wide_kappa_delta_18::encode, decode: wide_kappa_delta_18::decode, call: wide_kappa_delta_18::call },
			FnGlue { name: "kappaZetaNo19", encode: wide_kappa_zeta_no19::encode, decode: wide_kappa_zeta_no19::decode, call: wide_kappa_zeta_no19::call },
			FnGlue { name: "alpha_zeta_20", encode: wide_alpha_zeta_20::encode, decode: wide_alpha_zeta_20::decode, call: wide_alpha_zeta_20::call },
			FnGlue { name: "omegaZetaNo21", encode: wide_omega_zeta_no21::encode, decode: wide_omega_zeta_no21::decode, call: wide_omega_zeta_no21::call },
			FnGlue { name: "omega_kappa_22", encode: wide_omega_kappa_22::encode, decode: wide_omega_kappa_22::decode, call: wide_omega_kappa_22::call },
			FnGlue { name: "zetaOmegaNo23", encode: wide_zeta_omega_no23::encode, decode: wide_zeta_omega_no23::decode, call: wide_zeta_omega_no23::call },
			FnGlue { name: "beta_omega_24", encode: wide_beta_omega_24::encode, decode: wide_beta_omega_24::decode, call: wide_beta_omega_24::call },
			FnGlue { name: "omegaDeltaNo25", encode: wide_omega_delta_no25::encode, decode: wide_omega_delta_no25::decode, call: wide_omega_delta_no25::call },
			FnGlue { name: "delta_beta_26", encode: wide_delta_beta_26::encode, decode: wide_delta_beta_26::decode, call: wide_delta_beta_26::call },
			FnGlue { name: "alphaZetaNo27", encode: wide_alpha_zeta_no27::encode, decode: wide_alpha_zeta_no27::decode, call: wide_alpha_zeta_no27::call },
			FnGlue { name: "gamma_zeta_28", encode: wide_gamma_zeta_28::encode, decode: wide_gamma_zeta_28::decode, call: wide_gamma_zeta_28::call },
			FnGlue { name: "betaAlphaNo29", encode: wide_beta_alpha_no29::encode, decode: wide_beta_alpha_no29::decode, call: wide_beta_alpha_no29::call },
			FnGlue { name: "sigma_zeta_30", encode: wide_sigma_zeta_30::encode, decode: wide_sigma_zeta_30::decode, call: wide_sigma_zeta_30::call },
			FnGlue { name: "alphaGammaNo31", encode: wide_alpha_gamma_no31::encode, decode: wide_alpha_gamma_no31::decode, call: wide_alpha_gamma_no31::call },
			FnGlue { name: "zeta_sigma_32", encode: wide_zeta_sigma_32::encode, decode: wide_zeta_sigma_32::decode, call: wide_zeta_sigma_32::call },
			FnGlue { name: "sigmaDeltaNo33", encode: wide_sigma_delta_no33::encode, decode: wide_sigma_delta_no33::decode, call: wide_sigma_delta_no33::call },
			FnGlue { name: "beta_sigma_34", encode: wide_beta_sigma_34::encode, decode: wide_beta_sigma_34::decode, call: wide_beta_sigma_34::call },
			FnGlue { name: "alphaSigmaNo35", encode: wide_alpha_sigma_no35::encode, decode: wide_alpha_sigma_no35::decode, call: wide_alpha_sigma_no35::call },
			FnGlue { name: "zeta_sigma_36", encode: wide_zeta_sigma_36::encode, decode: wide_zeta_sigma_36::decode, call: wide_zeta_sigma_36::call },
			FnGlue { name: "gammaSigmaNo37", encode: wide_gamma_sigma_no37::encode, decode: wide_gamma_sigma_no37::decode, call: wide_gamma_sigma_no37::call },
			FnGlue { name: "gamma_alpha_38", encode: wide_gamma_alpha_38::encode, decode: wide_gamma_alpha_38::decode, call: wide_gamma_alpha_38::call },
			FnGlue { name: "betaSigmaNo39", encode: wide_beta_sigma_no39::encode, decode: wide_beta_sigma_no39::decode, call: wide_beta_sigma_no39::call },
		], evs: vec![
		] },
		Abi { name: "events", text: include_str!("../../bindings/abi/events.abi"), ctor: Some(events_ctor), fns: vec![
		], evs: vec![
			EvGlue { name: "AlphaBeta", event: events_ev_alpha_beta::event, filter: events_ev_alpha_beta::filter, wildcard: events_ev_alpha_beta::wildcard, parse: events_ev_alpha_beta::parse },
			EvGlue { name: "AlphaGamma", event: events_ev_alpha_gamma::event, filter: events_ev_alpha_gamma::filter, wildcard: events_ev_alpha_gamma::wildcard, parse: events_ev_alpha_gamma::parse },
			EvGlue { name: "AlphaDelta", event: events_ev_alpha_delta::event, filter: events_ev_alpha_delta::filter, wildcard: events_ev_alpha_delta::wildcard, parse: events_ev_alpha_delta::parse },
			EvGlue { name: "AlphaKappa", event: events_ev_alpha_kappa::event, filter: events_ev_alpha_kappa::filter, wildcard: events_ev_alpha_kappa::wildcard, parse: events_ev_alpha_kappa::parse },
			EvGlue { name: "AlphaSigma", event: events_ev_alpha_sigma::event, filter: events_ev_alpha_sigma::filter, wildcard: events_ev_alpha_sigma::wildcard, parse: events_ev_alpha_sigma::parse },
			EvGlue { name: "AlphaOmega", event: events_ev_alpha_omega::event, filter: events_ev_alpha_omega::filter, wildcard: events_ev_alpha_omega::wildcard, parse: events_ev_alpha_omega::parse },
			EvGlue { name: "AlphaZeta", event: events_ev_alpha_zeta::event, filter: events_ev_alpha_zeta::filter, wildcard: events_ev_alpha_zeta::wildcard, parse: events_ev_alpha_zeta::parse },
			EvGlue { name: "BetaAlpha", event: events_ev_beta_alpha::event, filter: events_ev_beta_alpha::filter, wildcard: events_ev_beta_alpha::wildcard, parse: events_ev_beta_alpha::parse },
			EvGlue { name: "BetaGamma", event: events_ev_beta_gamma::event, filter: events_ev_beta_gamma::filter, wildcard: events_ev_beta_gamma::wildcard, parse: events_ev_beta_gamma::parse },
			EvGlue { name: "BetaDelta", event: events_ev_beta_delta::event, filter: events_ev_beta_delta::filter, wildcard: events_ev_beta_delta::wildcard, parse: events_ev_beta_delta::parse },
			EvGlue { name: "BetaKappa", event: events_ev_beta_kappa::event, filter: events_ev_beta_kappa::filter, wildcard: events_ev_beta_kappa::wildcard, parse: events_ev_beta_kappa::parse },
			EvGlue { name: "BetaSigma", event: events_ev_beta_sigma::event, filter: events_ev_beta_sigma::filter, wildcard: events_ev_beta_sigma::wildcard, parse: events_ev_beta_sigma::parse },
			EvGlue { name: "BetaOmega", event: events_ev_beta_omega::event, filter: events_ev_beta_omega::filter, wildcard: events_ev_beta_omega::wildcard, parse: events_ev_beta_omega::parse },
			EvGlue { name: "BetaZeta", event: events_ev_beta_zeta::event, filter: events_ev_beta_zeta::filter, wildcard: events_ev_beta_zeta::wildcard, parse: events_ev_beta_zeta::parse },
			EvGlue { name: "GammaAlpha", event: events_ev_gamma_alpha::event, filter: events_ev_gamma_alpha::filter, wildcard: events_ev_gamma_alpha::wildcard, parse: events_ev_gamma_alpha::parse },
			EvGlue { name: "GammaBeta", event: events_ev_gamma_beta::event, filter: events_ev_gamma_beta::filter, wildcard: events_ev_gamma_beta::wildcard, parse: events_ev_gamma_beta::parse },
			EvGlue { name: "GammaDelta", event: events_ev_gamma_delta::event, filter: events_ev_gamma_delta::filter, wildcard: events_ev_gamma_delta::wildcard, parse: events_ev_gamma_delta::parse },
			EvGlue { name: "GammaKappa", event: events_ev_gamma_kappa::event, filter: events_ev_gamma_kappa::filter, wildcard: events_ev_gamma_kappa::wildcard, parse: events_ev_gamma_kappa::parse },
			EvGlue { name: "GammaSigma", event: events_ev_gamma_sigma::event, filter: events_ev_gamma_sigma::filter, wildcard: events_ev_gamma_sigma::wildcard, parse: events_ev_gamma_sigma::parse },
			EvGlue { name: "GammaOmega", event: events_ev_gamma_omega::event, filter: events_ev_gamma_omega::filter, wildcard: events_ev_gamma_omega::wildcard, parse: events_ev_gamma_omega::parse },
			EvGlue { name: "GammaZeta", event: events_ev_gamma_zeta::event, filter: events_ev_gamma_zeta::filter, wildcard: events_ev_gamma_zeta::wildcard, parse: events_ev_gamma_zeta::parse },
			EvGlue { name: "DeltaAlpha", event: events_ev_delta_alpha::event, filter: events_ev_delta_alpha::filter, wildcard: events_ev_delta_alpha::wildcard, parse: events_ev_delta_alpha::parse },
			EvGlue { name: "DeltaBeta", event: events_ev_delta_beta::event, filter: events_ev_delta_beta::filter, wildcard: events_ev_delta_beta::wildcard, parse: events_ev_delta_beta::parse },
			EvGlue { name: "DeltaGamma", event: events_ev_delta_gamma::event, filter: events_ev_delta_gamma::filter, wildcard: events_ev_delta_gamma::wildcard, parse: events_ev_delta_gamma::parse },
			EvGlue { name: "DeltaKappa", event: events_ev_delta_kappa::event, filter: events_ev_delta_kappa::filter, wildcard: events_ev_delta_kappa::wildcard, parse: events_ev_delta_kappa::parse },
			EvGlue { name: "DeltaSigma", event: events_ev_delta_sigma::event, filter: events_ev_delta_sigma::filter, wildcard: events_ev_delta_sigma::wildcard, parse: events_ev_delta_sigma::parse },
			EvGlue { name: "DeltaOmega", event: events_ev_delta_omega::event, filter: events_ev_delta_omega::filter, wildcard: events_ev_delta_omega::wildcard, parse: events_ev_delta_omega::parse },
			EvGlue { name: "DeltaZeta", event: events_ev_delta_zeta::event, filter: events_ev_delta_zeta::filter, wildcard: events_ev_delta_zeta::wildcard, parse: events_ev_delta_zeta::parse },
			EvGlue { name: "KappaAlpha", event: events_ev_kappa_alpha::event, filter: events_ev_kappa_alpha::filter, wildcard: events_ev_kappa_alpha::wildcard, parse: events_ev_kappa_alpha::parse },
			EvGlue { name: "KappaBeta", event: events_ev_kappa_beta::event, filter: events_ev_kappa_beta::filter, wildcard: events_ev_kappa_beta::wildcard, parse: events_ev_kappa_beta::parse },
			EvGlue { name: "KappaGamma", event: events_ev_kappa_gamma::event, filter: events_ev_kappa_gamma::filter, wildcard: events_ev_kappa_gamma::wildcard, parse: events_ev_kappa_gamma::parse },
			EvGlue { name: "KappaDelta", event: events_ev_kappa_delta::event, filter: events_ev_kappa_delta::filter, wildcard: events_ev_kappa_delta::wildcard, parse: events_ev_kappa_delta::parse },
			EvGlue { name: "KappaSigma", event: events_ev_kappa_sigma::event, filter: events_ev_kappa_sigma::filter, wildcard: events_ev_kappa_sigma::wildcard, parse: events_ev_kappa_sigma::parse },
			EvGlue { name: "KappaOmega", event: events_ev_kappa_omega::event, filter: events_ev_kappa_omega::filter, wildcard: events_ev_kappa_omega::wildcard, parse: events_ev_kappa_omega::parse },
			EvGlue { name: "KappaZeta", event: events_ev_kappa_zeta::event, filter: events_ev_kappa_zeta::filter, wildcard: events_ev_kappa_zeta::wildcard, parse: events_ev_kappa_zeta::parse },
			EvGlue { name: "SigmaAlpha", event: events_ev_sigma_alpha::event, filter: events_ev_sigma_alpha::filter, wildcard: events_ev_sigma_alpha::wildcard, parse: events_ev_sigma_alpha::parse },
			EvGlue { name: "SigmaBeta", event: events_ev_sigma_beta::event, filter: events_ev_sigma_beta::filter, wildcard: events_ev_sigma_beta::wildcard, parse: events_ev_sigma_beta::parse },
			EvGlue { name: "SigmaGamma", event: events_ev_sigma_gamma::event, filter: events_ev_sigma_gamma::filter, wildcard: events_ev_sigma_gamma::wildcard, parse: events_ev_sigma_gamma::parse },
			EvGlue { name: "SigmaDelta", event: events_ev_sigma_delta::event, filter: events_ev_sigma_delta::filter, wildcard: events_ev_sigma_delta::wildcard, parse: events_ev_sigma_delta::parse },
			EvGlue { name: "SigmaKappa", event: events_ev_sigma_kappa::event, filter: events_ev_sigma_kappa::filter, wildcard: events_ev_sigma_kappa::wildcard, parse: events_ev_sigma_kappa::parse },
			EvGlue { name: "SigmaOmega", event: events_ev_sigma_omega::event, filter: events_ev_sigma_omega::filter, wildcard: events_ev_sigma_omega::wildcard, parse: events_ev_sigma_omega::parse },
			EvGlue { name: "SigmaZeta", event: events_ev_sigma_zeta::event, filter: events_ev_sigma_zeta::filter, wildcard: events_ev_sigma_zeta::wildcard, parse: events_ev_sigma_zeta::parse },
			EvGlue { name: "OmegaAlpha", event: events_ev_omega_alpha::event, filter: events_ev_omega_alpha::filter, wildcard: events_ev_omega_alpha::wildcard, parse: events_ev_omega_alpha::parse },
			EvGlue { name: "OmegaBeta", event: events_ev_omega_beta::event, filter: events_ev_omega_beta::filter, wildcard: events_ev_omega_beta::wildcard, parse: events_ev_omega_beta::parse },
			EvGlue { name: "OmegaGamma", event: events_ev_omega_gamma::event, filter: events_ev_omega_gamma::filter, wildcard: events_ev_omega_gamma::wildcard, parse: events_ev_omega_gamma::parse },
			EvGlue { name: "OmegaDelta", event: events_ev_omega_delta::event, filter: events_ev_omega_delta::filter, wildcard: events_ev_omega_delta::wildcard, parse: events_ev_omega_delta::parse },
			EvGlue { name: "OmegaKappa", event: events_ev_omega_kappa::event, filter: events_ev_omega_kappa::filter, wildcard: events_ev_omega_kappa::wildcard, parse: events_ev_omega_kappa::parse },
			EvGlue { name: "OmegaSigma", event: events_ev_omega_sigma::event, filter: events_ev_omega_sigma::filter, wildcard: events_ev_omega_sigma::wildcard, parse: events_ev_omega_sigma::parse },
			EvGlue { name: "OmegaZeta", event: events_ev_omega_zeta::event, filter: events_ev_omega_zeta::filter, wildcard: events_ev_omega_zeta::wildcard, parse: events_ev_omega_zeta::parse },
			EvGlue { name: "ZetaAlpha", event: events_ev_zeta_alpha::event, filter: events_ev_zeta_alpha::filter, wildcard: events_ev_zeta_alpha::wildcard, parse: events_ev_zeta_alpha::parse },
			EvGlue { name: "ZetaBeta", event: events_ev_zeta_beta::event, filter: events_ev_zeta_beta::filter, wildcard: events_ev_zeta_beta::wildcard, parse: events_ev_zeta_beta::parse },
			EvGlue { name: "ZetaGamma", event: events_ev_zeta_gamma::event, filter: events_ev_zeta_gamma::filter, wildcard: events_ev_zeta_gamma::wildcard, parse: events_ev_zeta_gamma::parse },
			EvGlue { name: "AlphaToAlpha", event: events_ev_alpha_to_alpha::event, filter: events_ev_alpha_to_alpha::filter, wildcard: events_ev_alpha_to_alpha::wildcard, parse: events_ev_alpha_to_alpha::parse },
			EvGlue { name: "AlphaToBeta", event: events_ev_alpha_to_beta::event, filter: events_ev_alpha_to_beta::filter, wildcard: events_ev_alpha_to_beta::wildcard, parse: events_ev_alpha_to_beta::parse },
			EvGlue { name: "AlphaToGamma", event: events_ev_alpha_to_gamma::event, filter: events_ev_alpha_to_gamma::filter, wildcard: events_ev_alpha_to_gamma::wildcard, parse: events_ev_alpha_to_gamma::parse },
			EvGlue { name: "AlphaToDelta", event: events_ev_alpha_to_delta::event, filter: events_ev_alpha_to_delta::filter, wildcard: events_ev_alpha_to_delta::wildcard, parse: events_ev_alpha_to_delta::parse },
			EvGlue { name: "AlphaToKappa", event: events_ev_alpha_to_kappa::event, filter: events_ev_alpha_to_kappa::filter, wildcard: events_ev_alpha_to_kappa::wildcard, parse: events_ev_alpha_to_kappa::parse },
			EvGlue { name: "AlphaToSigma", event: events_ev_alpha_to_sigma::event, filter: events_ev_alpha_to_sigma::filter, wildcard: events_ev_alpha_to_sigma::wildcard, parse: events_ev_alpha_to_sigma::parse },
			EvGlue { name: "AlphaToOmega", event: events_ev_alpha_to_omega::event, filter: events_ev_alpha_to_omega::filter, wildcard: events_ev_alpha_to_omega::wildcard, parse: events_ev_alpha_to_omega::parse },
			EvGlue { name: "AlphaToZeta", event: events_ev_alpha_to_zeta::event, filter: events_ev_alpha_to_zeta::filter, wildcard: events_ev_alpha_to_zeta::wildcard, parse: events_ev_alpha_to_zeta::parse },
			EvGlue { name: "BetaToAlpha", event: events_ev_beta_to_alpha::event, filter: events_ev_beta_to_alpha::filter, wildcard: events_ev_beta_to_alpha::wildcard, parse: events_ev_beta_to_alpha::parse },
			EvGlue { name: "BetaToBeta", event: events_ev_beta_to_beta::event, filter: events_ev_beta_to_beta::filter, wildcard: events_ev_beta_to_beta::wildcard, parse: events_ev_beta_to_beta::parse },
			EvGlue { name: "BetaToGamma", event: events_ev_beta_to_gamma::event, filter: events_ev_beta_to_gamma::filter, wildcard: events_ev_beta_to_gamma::wildcard, parse: events_ev_beta_to_gamma::parse },
			EvGlue { name: "BetaToDelta", event: events_ev_beta_to_delta::event, filter: events_ev_beta_to_delta::filter, wildcard: events_ev_beta_to_delta::wildcard, parse: events_ev_beta_to_delta::parse },
			EvGlue { name: "BetaToKappa", event: events_ev_beta_to_kappa::event, filter: events_ev_beta_to_kappa::filter, wildcard: events_ev_beta_to_kappa::wildcard, parse: events_ev_beta_to_kappa::parse },
			EvGlue { name: "BetaToSigma", event: events_ev_beta_to_sigma::event, filter: events_ev_beta_to_sigma::filter, wildcard: events_ev_beta_to_sigma::wildcard, parse: events_ev_beta_to_sigma::parse },
			EvGlue { name: "BetaToOmega", event: events_ev_beta_to_omega::event, filter: events_ev_beta_to_omega::filter, wildcard: events_ev_beta_to_omega::wildcard, parse: events_ev_beta_to_omega::parse },
			EvGlue { name: "BetaToZeta", event: events_ev_beta_to_zeta::event, filter: events_ev_beta_to_zeta::filter, wildcard: events_ev_beta_to_zeta::wildcard, parse: events_ev_beta_to_zeta::parse },
			EvGlue { name: "GammaToAlpha", event: events_ev_gamma_to_alpha::event, filter: events_ev_gamma_to_alpha::filter, wildcard: events_ev_gamma_to_alpha::wildcard, parse: events_ev_gamma_to_alpha::parse },
			EvGlue { name: "GammaToBeta", event: events_ev_gamma_to_beta::event, filter: events_ev_gamma_to_beta::filter, wildcard: events_ev_gamma_to_beta::wildcard, parse: events_ev_gamma_to_beta::parse },
			EvGlue { name: "GammaToGamma", event: events_ev_gamma_to_gamma::event, filter: events_ev_gamma_to_gamma::filter, wildcard: events_ev_gamma_to_gamma::wildcard, parse: events_ev_gamma_to_gamma::parse },
			EvGlue { name: "GammaToDelta", event: events_ev_gamma_to_delta::event, filter: events_ev_gamma_to_delta::filter, wildcard: events_ev_gamma_to_delta::wildcard, parse: events_ev_gamma_to_delta::parse },
			EvGlue { name: "GammaToKappa", event: events_ev_gamma_to_kappa::event, filter: events_ev_gamma_to_kappa::filter, wildcard: events_ev_gamma_to_kappa::wildcard, parse: events_ev_gamma_to_kappa::parse },
			EvGlue { name: "GammaToSigma", event: events_ev_gamma_to_sigma::event, filter: events_ev_gamma_to_sigma::filter, wildcard: events_ev_gamma_to_sigma::wildcard, parse: events_ev_gamma_to_sigma::parse },
			EvGlue { name: "GammaToOmega", event: events_ev_gamma_to_omega::event, filter: events_ev_gamma_to_omega::filter, wildcard: events_ev_gamma_to_omega::wildcard, parse: events_ev_gamma_to_omega::parse },
			EvGlue { name: "GammaToZeta", event: events_ev_gamma_to_zeta::event, filter: events_ev_gamma_to_zeta::filter, wildcard: events_ev_gamma_to_zeta::wildcard, parse: events_ev_gamma_to_zeta::parse },
			EvGlue { name: "DeltaToAlpha", event: events_ev_delta_to_alpha::event, filter: events_ev_delta_to_alpha::filter, wildcard: events_ev_delta_to_alpha::wildcard, parse: events_ev_delta_to_alpha::parse },
			EvGlue { name: "DeltaToBeta", event: events_ev_delta_to_beta::event, filter: events_ev_delta_to_beta::filter, wildcard: events_ev_delta_to_beta::wildcard, parse: events_ev_delta_to_beta::parse },
			EvGlue { name: "DeltaToGamma", event: events_ev_delta_to_gamma::event, filter: events_ev_delta_to_gamma::filter, wildcard: events_ev_delta_to_gamma::wildcard, parse: events_ev_delta_to_gamma::parse },
			EvGlue { name: "DeltaToDelta", event: events_ev_delta_to_delta::event, filter: events_ev_delta_to_delta::filter, wildcard: events_ev_delta_to_delta::wildcard, parse: events_ev_delta_to_delta::parse },
			EvGlue { name: "DeltaToKappa", event: events_ev_delta_to_kappa::event, filter: events_ev_delta_to_kappa::filter, wildcard: events_ev_delta_to_kappa::wildcard, parse: events_ev_delta_to_kappa::parse },
			EvGlue { name: "DeltaToSigma", event: events_ev_delta_to_sigma::event, filter: events_ev_delta_to_sigma::filter, wildcard: events_ev_delta_to_sigma::wildcard, parse: events_ev_delta_to_sigma::parse },
			EvGlue { name: "DeltaToOmega", event: events_ev_delta_to_omega::event, filter: events_ev_delta_to_omega::filter, wildcard: events_ev_delta_to_omega::wildcard, parse: events_ev_delta_to_omega::parse },
			EvGlue { name: "DeltaToZeta", event: events_ev_delta_to_zeta::event, filter: events_ev_delta_to_zeta::filter, wildcard: events_ev_delta_to_zeta::wildcard, parse: events_ev_delta_to_zeta::parse },
			EvGlue { name: "KappaToAlpha", event: events_ev_kappa_to_alpha::event, filter: events_ev_kappa_to_alpha::filter, wildcard: events_ev_kappa_to_alpha::wildcard, parse: events_ev_kappa_to_alpha::parse },
			EvGlue { name: "KappaToBeta", event: events_ev_kappa_to_beta::event, filter: events_ev_kappa_to_beta::filter, wildcard: events_ev_kappa_to_beta::wildcard, parse: events_ev_kappa_to_beta::parse },
			EvGlue { name: "KappaToGamma", event: events_ev_kappa_to_gamma::event, filter: events_ev_kappa_to_gamma::filter, wildcard: events_ev_kappa_to_gamma::wildcard, parse: events_ev_kappa_to_gamma::parse },
			EvGlue { name: "KappaToDelta", event: events_ev_kappa_to_delta::event, filter: events_ev_kappa_to_delta::filter, wildcard: events_ev_kappa_to_delta::wildcard, parse: events_ev_kappa_to_delta::parse },
			EvGlue { name: "KappaToKappa", event: events_ev_kappa_to_kappa::event, filter: events_ev_kappa_to_kappa::filter, wildcard: events_ev_kappa_to_kappa::wildcard, parse: events_ev_kappa_to_kappa::parse },
			EvGlue { name: "KappaToSigma", event: events_ev_kappa_to_sigma::event, filter: events_ev_kappa_to_sigma::filter, wildcard: events_ev_kappa_to_sigma::wildcard, parse: events_ev_kappa_to_sigma::parse },
			EvGlue { name: "KappaToOmega", event: events_ev_kappa_to_omega::event, filter: events_ev_kappa_to_omega::filter, wildcard: events_ev_kappa_to_omega::wildcard, parse: events_ev_kappa_to_omega::parse },
			EvGlue { name: "KappaToZeta", event: events_ev_kappa_to_zeta::event, filter: events_ev_kappa_to_zeta::filter, wildcard: events_ev_kappa_to_zeta::wildcard, parse: events_ev_kappa_to_zeta::parse },
			EvGlue { name: "SigmaToAlpha", event: events_ev_sigma_to_alpha::event, filter: events_ev_sigma_to_alpha::filter, wildcard: events_ev_sigma_to_alpha::wildcard, parse: events_ev_sigma_to_alpha::parse },
			EvGlue { name: "SigmaToBeta", event: events_ev_sigma_to_beta::event, filter: events_ev_sigma_to_beta::filter, wildcard: events_ev_sigma_to_beta::wildcard, parse: events_ev_sigma_to_beta::parse },
			EvGlue { name: "SigmaToGamma", event: events_ev_sigma_to_gamma::event, filter: events_ev_sigma_to_gamma::filter, wildcard: events_ev_sigma_to_gamma::wildcard, parse: events_ev_sigma_to_gamma::parse },
			EvGlue { name: "SigmaToDelta", event: events_ev_sigma_to_delta::event, filter: events_ev_sigma_to_delta::filter, wildcard: events_ev_sigma_to_delta::wildcard, parse: events_ev_sigma_to_delta::parse },
		] },
		Abi { name: "odd", text: include_str!("../../bindings/abi/odd.abi"), ctor: None, fns: vec![
			FnGlue { name: "URI", encode: odd_uri::encode, decode: odd_uri::decode, call: odd_uri::call },
			FnGlue { name: "_hidden", encode: odd_hidden::encode, decode: odd_hidden::decode, call: odd_hidden::call },
			FnGlue { name: "snake_case_fn", encode: odd_snake_case_fn::encode, decode: odd_snake_case_fn::decode, call: odd_snake_case_fn::call },
		], evs: vec![
			EvGlue { name: "URI", event: odd_ev_uri::event, filter: odd_ev_uri::filter, wildcard: odd_ev_uri::wildcard, parse: odd_ev_uri::parse },
			EvGlue { name: "log_note", event: odd_ev_log_note::event, filter: odd_ev_log_note::filter, wildcard: odd_ev_log_note::wildcard, parse: odd_ev_log_note::parse },
			EvGlue { name: "Fine", event: odd_ev_fine::event, filter: odd_ev_fine::filter, wildcard: odd_ev_fine::wildcard, parse: odd_ev_fine::parse },
		] },
		Abi { name: "sizes", text: include_str!("../../bindings/abi/sizes.abi"), ctor: Some(sizes_ctor), fns: vec![
			FnGlue { name: "sized0", encode: sizes_sized0::encode, decode: sizes_sized0::decode, call: sizes_sized0::call },
			FnGlue { name: "sized5", encode: sizes_sized5::encode, decode: sizes_sized5::decode, call: sizes_sized5::call },
			FnGlue { name: "sized10", encode: sizes_sized10::encode, decode: sizes_sized10::decode, call: sizes_sized10::call },
			FnGlue { name: "sized15", encode: sizes_sized15::encode, decode: sizes_sized15::decode, call: sizes_sized15::call },
			FnGlue { name: "sized20", encode: sizes_sized20::encode, decode: sizes_sized20::decode, call: sizes_sized20::call },
			FnGlue { name: "sized25", encode: sizes_sized25::encode, decode: sizes_sized25::decode, call: sizes_sized25::call },
			FnGlue { name: "sized30", encode: sizes_sized30::encode, decode: sizes_sized30::decode, call: sizes_sized30::call },
			FnGlue { name: "sized35", encode: sizes_sized35::encode, decode: sizes_sized35::decode, call: sizes_sized35::call },
			FnGlue { name: "sized40", encode: sizes_sized40::encode, decode: sizes_sized40::decode, call: sizes_sized40::call },
			FnGlue { name: "sized45", encode: sizes_sized45::encode, decode: sizes_sized45::decode, call: sizes_sized45::call },
			FnGlue { name: "sized50", encode: sizes_sized50::encode, decode: sizes_sized50::decode, call: sizes_sized50::call },
			FnGlue { name: "sized55", encode: sizes_sized55::encode, decode: sizes_sized55::decode, call: sizes_sized55::call },
			FnGlue { name: "sized60", encode: sizes_sized60::encode, decode: sizes_sized60::decode, call: sizes_sized60::call },
			FnGlue { name: "sized65", encode: sizes_sized65::encode, decode: sizes_sized65::decode, call: sizes_sized65::call },
			FnGlue { name: "sized70", encode: sizes_sized70::encode, decode: sizes_sized70::decode, call: sizes_sized70::call },
			FnGlue { name: "sized75", encode: sizes_sized75::encode, decode: sizes_sized75::decode, call: sizes_sized75::call },
			FnGlue { name: "sized80", encode: sizes_sized80::encode, decode: sizes_sized80::decode, call: sizes_sized80::call },
			FnGlue { name: "sized85", encode: sizes_sized85::encode, decode: sizes_sized85::decode, call: sizes_sized85::call },
			FnGlue { name: "long_0", encode: sizes_long_0::encode, decode: sizes_long_0::decode, call: sizes_long_0::call },
			FnGlue { name: "long_1", encode: sizes_long_1::encode, decode: sizes_long_1::decode, call: sizes_long_1::call },
			FnGlue { name: "long_2", encode: sizes_long_2::encode, decode: sizes_long_2::decode, call: sizes_long_2::call },
			FnGlue { name: "long_3", encode: sizes_long_3::encode, decode: sizes_long_3::decode, call: sizes_long_3::call },
			FnGlue { name: "long_4", encode: sizes_long_4::encode, decode: sizes_long_4::decode, call: sizes_long_4::call },
			FnGlue { name: "long_5", encode: sizes_long_5::encode, decode: sizes_long_5::decode, call: sizes_long_5::call },
			FnGlue { name: "long_6", encode: sizes_long_6::encode, decode: sizes_long_6::decode, call: sizes_long_6::call },
			FnGlue { name: "long_7", encode: sizes_long_7::encode, decode: sizes_long_7::decode, call: sizes_long_7::call },
			FnGlue { name: "long_8", encode: sizes_long_8::encode, decode: sizes_long_8::decode, call: sizes_long_8::call },
			FnGlue { name: "long_9", encode: sizes_long_9::encode, decode: sizes_long_9::decode, call: sizes_long_9::call },
			FnGlue { name: "long_10", encode: sizes_long_10::encode, decode: sizes_long_10::decode, call: sizes_long_10::call },
			FnGlue { name: "long_11", encode: sizes_long_11::encode, decode: sizes_long_11::decode, call: sizes_long_11::call },
			FnGlue { name: "long_12", encode: sizes_long_12::encode, decode: sizes_long_12::decode, call: sizes_long_12::call },
			FnGlue { name: "long_13", encode: sizes_long_13::encode, decode: sizes_long_13::decode, call: sizes_long_13::call },
			FnGlue { name: "long_14", encode: sizes_long_14::encode, decode: sizes_long_14::decode, call: sizes_long_14::call },
			FnGlue { name: "long_15", encode: sizes_long_15::encode, decode: sizes_long_15::decode, call: sizes_long_15::call },
			FnGlue { name: "long_16", encode: sizes_long_16::encode, decode: sizes_long_16::decode, call: sizes_long_16::call },
			FnGlue { name: "many9And8", encode: sizes_many9_and8::encode, decode: sizes_many9_and8::decode, call: sizes_many9_and8::call },
			FnGlue { name: "many10And9", encode: sizes_many10_and9::encode, decode: sizes_many10_and9::decode, call: sizes_many10_and9::call },
			FnGlue { name: "many12And10", encode: sizes_many12_and10::encode, decode: sizes_many12_and10::decode, call: sizes_many12_and10::call },
			FnGlue { name: "many14And12", encode: sizes_many14_and12::encode, decode: sizes_many14_and12::decode, call: sizes_many14_and12::call },
			FnGlue { name: "many16And1", encode: sizes_many16_and1::encode, decode: sizes_many16_and1::decode, call: sizes_many16_and1::call },
			FnGlue { name: "many1And13", encode: sizes_many1_and13::encode, decode: sizes_many1_and13::decode, call: sizes_many1_and13::call },
			FnGlue { name: "many26And0", encode: sizes_many26_and0::encode, decode: sizes_many26_and0::decode, call: sizes_many26_and0::call },
		], evs: vec![
			EvGlue { name: "SizedA", event: sizes_ev_sized_a::event, filter: sizes_ev_sized_a::filter, wildcard: sizes_ev_sized_a::wildcard, parse: sizes_ev_sized_a::parse },
			EvGlue { name: "SizedBx", event: sizes_ev_sized_bx::event, filter: sizes_ev_sized_bx::filter, wildcard: sizes_ev_sized_bx::wildcard, parse: sizes_ev_sized_bx::parse },
			EvGlue { name: "SizedCxx", event: sizes_ev_sized_cxx::event, filter: sizes_ev_sized_cxx::filter, wildcard: sizes_ev_sized_cxx::wildcard, parse: sizes_ev_sized_cxx::parse },
			EvGlue { name: "SizedD", event: sizes_ev_sized_d::event, filter: sizes_ev_sized_d::filter, wildcard: sizes_ev_sized_d::wildcard, parse: sizes_ev_sized_d::parse },
			EvGlue { name: "SizedEx", event: sizes_ev_sized_ex::event, filter: sizes_ev_sized_ex::filter, wildcard: sizes_ev_sized_ex::wildcard, parse: sizes_ev_sized_ex::parse },
			EvGlue { name: "SizedFxx", event: sizes_ev_sized_fxx::event, filter: sizes_ev_sized_fxx::filter, wildcard: sizes_ev_sized_fxx::wildcard, parse: sizes_ev_sized_fxx::parse },
			EvGlue { name: "SizedG", event: sizes_ev_sized_g::event, filter: sizes_ev_sized_g::filter, wildcard: sizes_ev_sized_g::wildcard, parse: sizes_ev_sized_g::parse },
			EvGlue { name: "SizedHx", event: sizes_ev_sized_hx::event, filter: sizes_ev_sized_hx::filter, wildcard: sizes_ev_sized_hx::wildcard, parse: sizes_ev_sized_hx::parse },
			EvGlue { name: "SizedIxx", event: sizes_ev_sized_ixx::event, filter: sizes_ev_sized_ixx::filter, wildcard: sizes_ev_sized_ixx::wildcard, parse: sizes_ev_sized_ixx::parse },
			EvGlue { name: "SizedJ", event: sizes_ev_sized_j::event, filter: sizes_ev_sized_j::filter, wildcard: sizes_ev_sized_j::wildcard, parse: sizes_ev_sized_j::parse },
			EvGlue { name: "SizedKx", event: sizes_ev_sized_kx::event, filter: sizes_ev_sized_kx::filter, wildcard: sizes_ev_sized_kx::wildcard, parse: sizes_ev_sized_kx::parse },
			EvGlue { name: "SizedLxx", event: sizes_ev_sized_lxx::event, filter: sizes_ev_sized_lxx::filter, wildcard: sizes_ev_sized_lxx::wildcard, parse: sizes_ev_sized_lxx::parse },
			EvGlue { name: "SizedM", event: sizes_ev_sized_m::event, filter: sizes_ev_sized_m::filter, wildcard: sizes_ev_sized_m::wildcard, parse: sizes_ev_sized_m::parse },
			EvGlue { name: "SizedNx", event: sizes_ev_sized_nx::event, filter: sizes_ev_sized_nx::filter, wildcard: sizes_ev_sized_nx::wildcard, parse: sizes_ev_sized_nx::parse },
			EvGlue { name: "SizedOxx", event: sizes_ev_sized_oxx::event, filter: sizes_ev_sized_oxx::filter, wildcard: sizes_ev_sized_oxx::wildcard, parse: sizes_ev_sized_oxx::parse },
			EvGlue { name: "SizedP", event: sizes_ev_sized_p::event, filter: sizes_ev_sized_p::filter, wildcard: sizes_ev_sized_p::wildcard, parse: sizes_ev_sized_p::parse },
		] },
		Abi { name: "grid", text: include_str!("../../bindings/abi/grid.abi"), ctor: Some(grid_ctor), fns: vec![
			FnGlue { name: "pure_0_to_0", encode: grid_pure_0_to_0::encode, decode: grid_pure_0_to_0::decode, call: grid_pure_0_to_0::call },
			FnGlue { name: "pure_0_to_1", encode: grid_pure_0_to_1::encode, decode: grid_pure_0_to_1::decode, call: grid_pure_0_to_1::call },
			FnGlue { name: "pure_0_to_2", encode: grid_pure_0_to_2::encode, decode: grid_pure_0_to_2::decode, call: grid_pure_0_to_2::call },
			FnGlue { name: "pure_0_to_3", encode: grid_pure_0_to_3::encode, decode: grid_pure_0_to_3::decode, call: grid_pure_0_to_3::call },
			FnGlue { name: "pure_1_to_0", encode: grid_pure_1_to_0::encode, decode: grid_pure_1_to_0::decode, call: grid_pure_1_to_0::call },
			FnGlue { name: "pure_1_to_1", encode: grid_pure_1_to_1::encode, decode: grid_pure_1_to_1::decode, call: grid_pure_1_to_1::call },
			FnGlue { name: "pure_1_to_2", encode: grid_pure_1_to_2::encode, decode: grid_pure_1_to_2::decode, call: grid_pure_1_to_2::call },
			FnGlue { name: "pure_1_to_3", encode: grid_pure_1_to_3::encode, decode: grid_pure_1_to_3::decode, call: grid_pure_1_to_3::call },
			FnGlue { name: "pure_2_to_0", encode: grid_pure_2_to_0::encode, decode: grid_pure_2_to_0::decode, call: grid_pure_2_to_0::call },
			FnGlue { name: "pure_2_to_1", encode: grid_pure_2_to_1::encode, decode: grid_pure_2_to_1::decode, call: grid_pure_2_to_1::call },
			FnGlue { name: "pure_2_to_2", encode: grid_pure_2_to_2::encode, decode: grid_pure_2_to_2::decode, call: grid_pure_2_to_2::call },
			FnGlue { name: "pure_2_to_3", encode: grid_pure_2_to_3::encode, decode: grid_pure_2_to_3::decode, call: grid_pure_2_to_3::call },
			FnGlue { name: "pure_3_to_0", encode: grid_pure_3_to_0::encode, decode: grid_pure_3_to_0::decode, call: grid_pure_3_to_0::call },
			FnGlue { name: "pure_3_to_1", encode: grid_pure_3_to_1::encode, decode: grid_pure_3_to_1::decode, call: grid_pure_3_to_1::call },
			FnGlue { name: "pure_3_to_2", encode: grid_pure_3_to_2::encode, decode: grid_pure_3_to_2::decode, call: grid_pure_3_to_2::call },
			FnGlue { name: "pure_3_to_3", encode: grid_pure_3_to_3::encode, decode: grid_pure_3_to_3::decode, call: grid_pure_3_to_3::call },
			FnGlue { name: "view_0_to_0", encode: grid_view_0_to_0::encode, decode: grid_view_0_to_0::decode, call: grid_view_0_to_0::call },
			FnGlue { name: "view_0_to_1", encode: grid_view_0_to_1::encode, decode: grid_view_0_to_1::decode, call: grid_view_0_to_1::call },
			FnGlue { name: "view_0_to_2", encode: grid_view_0_to_2::encode, decode: grid_view_0_to_2::decode, call: grid_view_0_to_2::call },
			FnGlue { name: "view_0_to_3", encode: grid_view_0_to_3::encode, decode: grid_view_0_to_3::decode, call: grid_view_0_to_3::call },
			FnGlue { name: "view_1_to_0", encode: grid_view_1_to_0::encode, decode: grid_view_1_to_0::decode, call: grid_view_1_to_0::call },
			FnGlue { name: "view_1_to_1", encode: grid_view_1_to_1::encode, decode: grid_view_1_to_1::decode, call: grid_view_1_to_1::call },
			FnGlue { name: "view_1_to_2", encode: grid_view_1_to_2::encode, decode: grid_view_1_to_2::decode, call: grid_view_1_to_2::call },
			FnGlue { name: "view_1_to_3", encode: grid_view_1_to_3::encode, decode: grid_view_1_to_3::decode, call: grid_view_1_to_3::call },
			FnGlue { name: "view_2_to_0", encode: grid_view_2_to_0::encode, decode: grid_view_2_to_0::decode, call: grid_view_2_to_0::call },
			FnGlue { name: "view_2_to_1", encode: grid_view_2_to_1::encode, decode: grid_view_2_to_1::decode, call: grid_view_2_to_1::call },
			FnGlue { name: "view_2_to_2", encode: grid_view_2_to_2::encode, decode: grid_view_2_to_2::decode, call: grid_view_2_to_2::call },
			FnGlue { name: "view_2_to_3", encode: grid_view_2_to_3::encode, decode: grid_view_2_to_3::decode, call: grid_view_2_to_3::call },
			FnGlue { name: "view_3_to_0", encode: grid_view_3_to_0::encode, decode: grid_view_3_to_0::decode, call: grid_view_3_to_0::call },
			FnGlue { name: "view_3_to_1", encode: grid_view_3_to_1::encode, decode: grid_view_3_to_1::decode, call: grid_view_3_to_1::call },
			FnGlue { name: "view_3_to_2", encode: grid_view_3_to_2::encode, decode: grid_view_3_to_2::decode, call: grid_view_3_to_2::call },
			FnGlue { name: "view_3_to_3", encode: grid_view_3_to_3::encode, decode: grid_view_3_to_3::decode, call: grid_view_3_to_3::call },
			FnGlue { name: "nonpayable_0_to_0", encode: grid_nonpayable_0_to_0::encode, decode: grid_nonpayable_0_to_0::decode, call: grid_nonpayable_0_to_0::call },
			FnGlue { name: "nonpayable_0_to_1", encode: grid_nonpayable_0_to_1::encode, decode: grid_nonpayable_0_to_1::decode, call: grid_nonpayable_0_to_1::call },
			FnGlue { name: "nonpayable_0_to_2", encode: grid_nonpayable_0_to_2::encode, decode: grid_nonpayable_0_to_2::decode, call: grid_nonpayable_0_to_2::call },
			FnGlue { name: "nonpayable_0_to_3", encode: grid_nonpayable_0_to_3::encode, decode: grid_nonpayable_0_to_3::decode, call: grid_nonpayable_0_to_3::call },
			FnGlue { name: "nonpayable_1_to_0", encode: grid_nonpayable_1_to_0::encode, decode: grid_nonpayable_1_to_0::decode, call: grid_nonpayable_1_to_0::call },
			FnGlue { name: "nonpayable_1_to_1", encode: grid_nonpayable_1_to_1::encode, decode: grid_nonpayable_1_to_1::decode, call: grid_nonpayable_1_to_1::call },
			FnGlue { name: "nonpayable_1_to_2", encode: grid_nonpayable_1_to_2::encode, decode: grid_nonpayable_1_to_2::decode, call: grid_nonpayable_1_to_2::call },
			FnGlue { name: "nonpayable_1_to_3", encode: grid_nonpayable_1_to_3::encode, decode: grid_nonpayable_1_to_3::decode, call: grid_nonpayable_1_to_3::call },
			FnGlue { name: "nonpayable_2_to_0", encode: grid_nonpayable_2_to_0::encode, decode: grid_nonpayable_2_to_0::decode, call: grid_nonpayable_2_to_0::call },
			FnGlue { name: "nonpayable_2_to_1", encode: grid_nonpayable_2_to_1::encode, decode: grid_nonpayable_2_to_1::decode, call: grid_nonpayable_2_to_1::call },
			FnGlue { name: "nonpayable_2_to_2", encode: grid_nonpayable_2_to_2::encode, decode: grid_nonpayable_2_to_2::decode, call: grid_nonpayable_2_to_2::call },
			FnGlue { name: "nonpayable_2_to_3", encode: grid_nonpayable_2_to_3::encode, decode: grid_nonpayable_2_to_3::decode, call: grid_nonpayable_2_to_3::call },
			FnGlue { name: "nonpayable_3_to_0", encode: grid_nonpayable_3_to_0::encode, decode: grid_nonpayable_3_to_0::decode, call: grid_nonpayable_3_to_0::call },
			FnGlue { name: "nonpayable_3_to_1", encode: grid_nonpayable_3_to_1::encode, decode: grid_nonpayable_3_to_1::decode, call: grid_nonpayable_3_to_1::call },
			FnGlue { name: "nonpayable_3_to_2", encode: grid_nonpayable_3_to_2::encode, decode: grid_nonpayable_3_to_2::decode, call: grid_nonpayable_3_to_2::call },
			FnGlue { name: "nonpayable_3_to_3", encode: grid_nonpayable_3_to_3::encode, decode: grid_nonpayable_3_to_3::decode, call: grid_nonpayable_3_to_3::call },
			FnGlue { name: "payable_0_to_0", encode: grid_payable_0_to_0::encode, decode: grid_payable_0_to_0::decode, call: grid_payable_0_to_0::call },
			FnGlue { name: "payable_0_to_1", encode: grid_payable_0_to_1::encode, decode: grid_payable_0_to_1::decode, call: grid_payable_0_to_1::call },
			FnGlue { name: "payable_0_to_2", encode: grid_payable_0_to_2::encode, decode: grid_payable_0_to_2::decode, call: grid_payable_0_to_2::call },
			FnGlue { name: "payable_0_to_3", encode: grid_payable_0_to_3::encode, decode: grid_payable_0_to_3::decode, call: grid_payable_0_to_3::call },
			FnGlue { name: "payable_1_to_0", encode: grid_payable_1_to_0::encode, decode: grid_payable_1_to_0::decode, call: grid_payable_1_to_0::call },
			FnGlue { name: "payable_1_to_1", encode: grid_payable_1_to_1::encode, decode: grid_payable_1_to_1::decode, call: grid_payable_1_to_1::call },
			FnGlue { name: "payable_1_to_2", encode: grid_payable_1_to_2::encode, decode: grid_payable_1_to_2::decode, call: grid_payable_1_to_2::call },
			FnGlue { name: "payable_1_to_3", encode: grid_payable_1_to_3::encode, decode: grid_payable_1_to_3::decode, call: grid_payable_1_to_3::call },
			FnGlue { name: "payable_2_to_0", encode: grid_payable_2_to_0::encode, decode: grid_payable_2_to_0::decode, call: grid_payable_2_to_0::call },
			FnGlue { name: "payable_2_to_1", encode: grid_payable_2_to_1::encode, decode: grid_payable_2_to_1::decode, call: grid_payable_2_to_1::call },
			FnGlue { name: "payable_2_to_2", encode: grid_payable_2_to_2::encode, decode: grid_payable_2_to_2::decode, call: grid_payable_2_to_2::call },
			FnGlue { name: "payable_2_to_3", encode: grid_payable_2_to_3::encode, decode: grid_payable_2_to_3::decode, call: grid_payable_2_to_3::call },
			FnGlue { name: "payable_3_to_0", encode: grid_payable_3_to_0::encode, decode: grid_payable_3_to_0::decode, call: grid_payable_3_to_0::call },
			FnGlue { name: "payable_3_to_1", encode: grid_payable_3_to_1::encode, decode: grid_payable_3_to_1::decode, call: grid_payable_3_to_1::call },
			FnGlue { name: "payable_3_to_2", encode: grid_payable_3_to_2::encode, decode: grid_payable_3_to_2::decode, call: grid_payable_3_to_2::call },
			FnGlue { name: "payable_3_to_3", encode: grid_payable_3_to_3::encode, decode: grid_payable_3_to_3::decode, call: grid_payable_3_to_3::call },
		], evs: vec![
			EvGlue { name: "EventOf0And0Named", event: grid_ev_event_of0_and0_named::event, filter: grid_ev_event_of0_and0_named::filter, wildcard: grid_ev_event_of0_and0_named::wildcard, parse: grid_ev_event_of0_and0_named::parse },
			EvGlue { name: "EventOf0And1Named", event: grid_ev_event_of0_and1_named::event, filter: grid_ev_event_of0_and1_named::filter, wildcard: grid_ev_event_of0_and1_named::wildcard, parse: grid_ev_event_of0_and1_named::parse },
			EvGlue { name: "EventOf0And1Bare", event: grid_ev_event_of0_and1_bare::event, filter: grid_ev_event_of0_and1_bare::filter, wildcard: grid_ev_event_of0_and1_bare::wildcard, parse: grid_ev_event_of0_and1_bare::parse },
			EvGlue { name: "EventOf0And1Mixed", event: grid_ev_event_of0_and1_mixed::event, filter: grid_ev_event_of0_and1_mixed::filter, wildcard: grid_ev_event_of0_and1_mixed::wildcard, parse: grid_ev_event_of0_and1_mixed::parse },
			EvGlue { name: "EventOf0And2Named", event: grid_ev_event_of0_and2_named::event, filter: grid_ev_event_of0_and2_named::filter, wildcard: grid_ev_event_of0_and2_named::wildcard, parse: grid_ev_event_of0_and2_named::parse },
			EvGlue { name: "EventOf0And2Bare", event: grid_ev_event_of0_and2_bare::event, filter: grid_ev_event_of0_and2_bare::filter, wildcard: grid_ev_event_of0_and2_bare::wildcard, parse: grid_ev_event_of0_and2_bare::parse },
			EvGlue { name: "EventOf0And2Mixed", event: grid_ev_event_of0_and2_mixed::event, filter: grid_ev_event_of0_and2_mixed::filter, wildcard: grid_ev_event_of0_and2_mixed::wildcard, parse: grid_ev_event_of0_and2_mixed::parse },
			EvGlue { name: "EventOf0And3Named", event: grid_ev_event_of0_and3_named::event, filter: grid_ev_event_of0_and3_named::filter, wildcard: grid_ev_event_of0_and3_named::wildcard, parse: grid_ev_event_of0_and3_named::parse },
			EvGlue { name: "EventOf0And3Bare", event: grid_ev_event_of0_and3_bare::event, filter: grid_ev_event_of0_and3_bare::filter, wildcard: grid_ev_event_of0_and3_bare::wildcard, parse: grid_ev_event_of0_and3_bare::parse },
			EvGlue { name: "EventOf0And3Mixed", event: grid_ev_event_of0_and3_mixed::event, filter: grid_ev_event_of0_and3_mixed::filter, wildcard: grid_ev_event_of0_and3_mixed::wildcard, parse: grid_ev_event_of0_and3_mixed::parse },
			EvGlue { name: "EventOf1And0Named", event: grid_ev_event_of1_and0_named::event, filter: grid_ev_event_of1_and0_named::filter, wildcard: grid_ev_event_of1_and0_named::wildcard, parse: grid_ev_event_of1_and0_named::parse },
			EvGlue { name: "EventOf1And0Bare", event: grid_ev_event_of1_and0_bare::event, filter: grid_ev_event_of1_and0_bare::filter, wildcard: grid_ev_event_of1_and0_bare::wildcard, parse: grid_ev_event_of1_and0_bare::parse },
			EvGlue { name: "EventOf1And0Mixed", event: grid_ev_event_of1_and0_mixed::event, filter: grid_ev_event_of1_and0_mixed::filter, wildcard: grid_ev_event_of1_and0_mixed::wildcard, parse: grid_ev_event_of1_and0_mixed::parse },
			EvGlue { name: "EventOf1And1Named", event: grid_ev_event_of1_and1_named::event, filter: grid_ev_event_of1_and1_named::filter, wildcard: grid_ev_event_of1_and1_named::wildcard, parse: grid_ev_event_of1_and1_named::parse },
			EvGlue { name: "EventOf1And1Bare", event: grid_ev_event_of1_and1_bare::event, filter: grid_ev_event_of1_and1_bare::filter, wildcard: grid_ev_event_of1_and1_bare::wildcard, parse: grid_ev_event_of1_and1_bare::parse },
			EvGlue { name: "EventOf1And1Mixed", event: grid_ev_event_of1_and1_mixed::event, filter: grid_ev_event_of1_and1_mixed::filter, wildcard: grid_ev_event_of1_and1_mixed::wildcard, parse: grid_ev_event_of1_and1_mixed::parse },
			EvGlue { name: "EventOf1And2Named", event: grid_ev_event_of1_and2_named::event, filter: grid_ev_event_of1_and2_named::filter, wildcard: grid_ev_event_of1_and2_named::wildcard, parse: grid_ev_event_of1_and2_named::parse },
			EvGlue { name: "EventOf1And2Bare", event: grid_ev_event_of1_and2_bare::event, filter: grid_ev_event_of1_and2_bare::filter, wildcard: grid_ev_event_of1_and2_bare::wildcard, parse: grid_ev_event_of1_and2_bare::parse },
			EvGlue { name: "EventOf1And2Mixed", event: grid_ev_event_of1_and2_mixed::event, filter: grid_ev_event_of1_and2_mixed::filter, wildcard: grid_ev_event_of1_and2_mixed::wildcard, parse: grid_ev_event_of1_and2_mixed::parse },
			EvGlue { name: "EventOf1And3Named", event: grid_ev_event_of1_and3_named::event, filter: grid_ev_event_of1_and3_named::filter, wildcard: grid_ev_event_of1_and3_named::wildcard, parse: grid_ev_event_of1_and3_named::parse },
			EvGlue { name: "EventOf1And3Bare", event: grid_ev_event_of1_and3_bare::event, filter: grid_ev_event_of1_and3_bare::filter, wildcard: grid_ev_event_of1_and3_bare::wildcard, parse: grid_ev_event_of1_and3_bare::parse },
			EvGlue { name: "EventOf1And3Mixed", event: grid_ev_event_of1_and3_mixed::event, filter: grid_ev_event_of1_and3_mixed::filter, wildcard: grid_ev_event_of1_and3_mixed::wildcard, parse: grid_ev_event_of1_and3_mixed::parse },
			EvGlue { name: "EventOf2And0Named", event: grid_ev_event_of2_and0_named::event, filter: grid_ev_event_of2_and0_named::filter, wildcard: grid_ev_event_of2_and0_named::wildcard, parse: grid_ev_event_of2_and0_named::parse },
			EvGlue { name: "EventOf2And0Bare", event: grid_ev_event_of2_and0_bare::event, filter: grid_ev_event_of2_and0_bare::filter, wildcard: grid_ev_event_of2_and0_bare::wildcard, parse: grid_ev_event_of2_and0_bare::parse },
			EvGlue { name: "EventOf2And0Mixed", event: grid_ev_event_of2_and0_mixed::event, filter: grid_ev_event_of2_and0_mixed::filter, wildcard: grid_ev_event_of2_and0_mixed::wildcard, parse: grid_ev_event_of2_and0_mixed::parse },
			EvGlue { name: "EventOf2And1Named", event: grid_ev_event_of2_and1_named::event, filter: grid_ev_event_of2_and1_named::filter, wildcard: grid_ev_event_of2_and1_named::wildcard, parse: grid_ev_event_of2_and1_named::parse },
			EvGlue { name: "EventOf2And1Bare", event: grid_ev_event_of2_and1_bare::event, filter: grid_ev_event_of2_and1_bare::filter, wildcard: grid_ev_event_of2_and1_bare::wildcard, parse: grid_ev_event_of2_and1_bare::parse },
			EvGlue { name: "EventOf2And1Mixed", event: grid_ev_event_of2_and1_mixed::event, filter: grid_ev_event_of2_and1_mixed::filter, wildcard: grid_ev_event_of2_and1_mixed::wildcard, parse: grid_ev_event_of2_and1_mixed::parse },
			EvGlue { name: "EventOf2And2Named", event: grid_ev_event_of2_and2_named::event, filter: grid_ev_event_of2_and2_named::filter, wildcard: grid_ev_event_of2_and2_named::wildcard, parse: grid_ev_event_of2_and2_named::parse },
			EvGlue { name: "EventOf2And2Bare", event: grid_ev_event_of2_and2_bare::event, filter: grid_ev_event_of2_and2_bare::filter, wildcard: grid_ev_event_of2_and2_bare::wildcard, parse: grid_ev_event_of2_and2_bare::parse },
			EvGlue { name: "EventOf2And2Mixed", event: grid_ev_event_of2_and2_mixed::event, filter: grid_ev_event_of2_and2_mixed::filter, wildcard: grid_ev_event_of2_and2_mixed::wildcard, parse: grid_ev_event_of2_and2_mixed::parse },
			EvGlue { name: "EventOf2And3Named", event: grid_ev_event_of2_and3_named::event, filter: grid_ev_event_of2_and3_named::filter, wildcard: grid_ev_event_of2_and3_named::wildcard, parse: grid_ev_event_of2_and3_named::parse },
			EvGlue { name: "EventOf2And3Bare", event: grid_ev_event_of2_and3_bare::event, filter: grid_ev_event_of2_and3_bare::filter, wildcard: grid_ev_event_of2_and3_bare::wildcard, parse: grid_ev_event_of2_and3_bare::parse },
			EvGlue { name: "EventOf2And3Mixed", event: grid_ev_event_of2_and3_mixed::event, filter: grid_ev_event_of2_and3_mixed::filter, wildcard: grid_ev_event_of2_and3_mixed::wildcard, parse: grid_ev_event_of2_and3_mixed::parse },
			EvGlue { name: "EventOf3And0Named", event: grid_ev_event_of3_and0_named::event, filter: grid_ev_event_of3_and0_named::filter, wildcard: grid_ev_event_of3_and0_named::wildcard, parse: grid_ev_event_of3_and0_named::parse },
			EvGlue { name: "EventOf3And0Bare", event: grid_ev_event_of3_and0_bare::event, filter: grid_ev_event_of3_and0_bare::filter, wildcard: grid_ev_event_of3_and0_bare::wildcard, parse: grid_ev_event_of3_and0_bare::parse },
			EvGlue { name: "EventOf3And0Mixed", event: grid_ev_event_of3_and0_mixed::event, filter: grid_ev_event_of3_and0_mixed::filter, wildcard: grid_ev_event_of3_and0_mixed::wildcard, parse: grid_ev_event_of3_and0_mixed::parse },
			EvGlue { name: "EventOf3And1Named", event: grid_ev_event_of3_and1_named::event, filter: grid_ev_event_of3_and1_named::filter, wildcard: grid_ev_event_of3_and1_named::wildcard, parse: grid_ev_event_of3_and1_named::parse },
			EvGlue { name: "EventOf3And1Bare", event: grid_ev_event_of3_and1_bare::event, filter: grid_ev_event_of3_and1_bare::filter, wildcard: grid_ev_event_of3_and1_bare::wildcard, parse: grid_ev_event_of3_and1_bare::parse },
			EvGlue { name: "EventOf3And1Mixed", event: grid_ev_event_of3_and1_mixed::event, filter: grid_ev_event_of3_and1_mixed::filter, wildcard: grid_ev_event_of3_and1_mixed::wildcard, parse: grid_ev_event_of3_and1_mixed::parse },
			EvGlue { name: "EventOf3And2Named", event: grid_ev_event_of3_and2_named::event, filter: grid_ev_event_of3_and2_named::filter, wildcard: grid_ev_event_of3_and2_named::wildcard, parse: grid_ev_event_of3_and2_named::parse },
			EvGlue { name: "EventOf3And2Bare", event: grid_ev_event_of3_and2_bare::event, filter: grid_ev_event_of3_and2_bare::filter, wildcard: grid_ev_event_of3_and2_bare::wildcard, parse: grid_ev_event_of3_and2_bare::parse },
			EvGlue { name: "EventOf3And2Mixed", event: grid_ev_event_of3_and2_mixed::event, filter: grid_ev_event_of3_and2_mixed::filter, wildcard: grid_ev_event_of3_and2_mixed::wildcard, parse: grid_ev_event_of3_and2_mixed::parse },
			EvGlue { name: "EventOf3And3Named", event: grid_ev_event_of3_and3_named::event, filter: grid_ev_event_of3_and3_named::filter, wildcard: grid_ev_event_of3_and3_named::wildcard, parse: grid_ev_event_of3_and3_named::parse },
			EvGlue { name: "EventOf3And3Bare", event: grid_ev_event_of3_and3_bare::event, filter: grid_ev_event_of3_and3_bare::filter, wildcard: grid_ev_event_of3_and3_bare::wildcard, parse: grid_ev_event_of3_and3_bare::parse },
			EvGlue { name: "EventOf3And3Mixed", event: grid_ev_event_of3_and3_mixed::event, filter: grid_ev_event_of3_and3_mixed::filter, wildcard: grid_ev_event_of3_and3_mixed::wildcard, parse: grid_ev_event_of3_and3_mixed::parse },
			EvGlue { name: "AnonOf0And0Named", event: grid_ev_anon_of0_and0_named::event, filter: grid_ev_anon_of0_and0_named::filter, wildcard: grid_ev_anon_of0_and0_named::wildcard, parse: grid_ev_anon_of0_and0_named::parse },
			EvGlue { name: "AnonOf0And1Named", event: grid_ev_anon_of0_and1_named::event, filter: grid_ev_anon_of0_and1_named::filter, wildcard: grid_ev_anon_of0_and1_named::wildcard, parse: grid_ev_anon_of0_and1_named::parse },
			EvGlue { name: "AnonOf0And1Bare", event: grid_ev_anon_of0_and1_bare::event, filter: grid_ev_anon_of0_and1_bare::filter, wildcard: grid_ev_anon_of0_and1_bare::wildcard, parse: grid_ev_anon_of0_and1_bare::parse },
			EvGlue { name: "AnonOf0And1Mixed", event: grid_ev_anon_of0_and1_mixed::event, filter: grid_ev_anon_of0_and1_mixed::filter, wildcard: grid_ev_anon_of0_and1_mixed::wildcard, parse: grid_ev_anon_of0_and1_mixed::parse },
			EvGlue { name: "AnonOf0And2Named", event: grid_ev_anon_of0_and2_named::event, filter: grid_ev_anon_of0_and2_named::filter, wildcard: grid_ev_anon_of0_and2_named::wildcard, parse: grid_ev_anon_of0_and2_named::parse },
			EvGlue { name: "AnonOf0And2Bare", event: grid_ev_anon_of0_and2_bare::event, filter: grid_ev_anon_of0_and2_bare::filter, wildcard: grid_ev_anon_of0_and2_bare::wildcard, parse: grid_ev_anon_of0_and2_bare::parse },
			EvGlue { name: "AnonOf0And2Mixed", event: grid_ev_anon_of0_and2_mixed::event, filter: grid_ev_anon_of0_and2_mixed::filter, wildcard: grid_ev_anon_of0_and2_mixed::wildcard, parse: grid_ev_anon_of0_and2_mixed::parse },
			EvGlue { name: "AnonOf0And3Named", event: grid_ev_anon_of0_and3_named::event, filter: grid_ev_anon_of0_and3_named::filter, wildcard: grid_ev_anon_of0_and3_named::wildcard, parse: grid_ev_anon_of0_and3_named::parse },
			EvGlue { name: "AnonOf0And3Bare", event: grid_ev_anon_of0_and3_bare::event, filter: grid_ev_anon_of0_and3_bare::filter, wildcard: grid_ev_anon_of0_and3_bare::wildcard, parse: grid_ev_anon_of0_and3_bare::parse },
			EvGlue { name: "AnonOf0And3Mixed", event: grid_ev_anon_of0_and3_mixed::event, filter: grid_ev_anon_of0_and3_mixed::filter, wildcard: grid_ev_anon_of0_and3_mixed::wildcard, parse: grid_ev_anon_of0_and3_mixed::parse },
			EvGlue { name: "AnonOf1And0Named", event: grid_ev_anon_of1_and0_named::event, filter: grid_ev_anon_of1_and0_named::filter, wildcard: grid_ev_anon_of1_and0_named::wildcard, parse: grid_ev_anon_of1_and0_named::parse },
			EvGlue { name: "AnonOf1And0Bare", event: grid_ev_anon_of1_and0_bare::event, filter: grid_ev_anon_of1_and0_bare::filter, wildcard: grid_ev_anon_of1_and0_bare::wildcard, parse: grid_ev_anon_of1_and0_bare::parse },
			EvGlue { name: "AnonOf1And0Mixed", event: grid_ev_anon_of1_and0_mixed::event, filter: grid_ev_anon_of1_and0_mixed::filter, wildcard: grid_ev_anon_of1_and0_mixed::wildcard, parse: grid_ev_anon_of1_and0_mixed::parse },
			EvGlue { name: "AnonOf1And1Named", event: grid_ev_anon_of1_and1_named::event, filter: grid_ev_anon_of1_and1_named::filter, wildcard: grid_ev_anon_of1_and1_named::wildcard, parse: grid_ev_anon_of1_and1_named::parse },
			EvGlue { name: "AnonOf1And1Bare", event: grid_ev_anon_of1_and1_bare::event, filter: grid_ev_anon_of1_and1_bare::filter, wildcard: grid_ev_anon_of1_and1_bare::wildcard, parse: grid_ev_anon_of1_and1_bare::parse },
			EvGlue { name: "AnonOf1And1Mixed", event: grid_ev_anon_of1_and1_mixed::event, filter: grid_ev_anon_of1_and1_mixed::filter, wildcard: grid_ev_anon_of1_and1_mixed::wildcard, parse: grid_ev_anon_of1_and1_mixed::parse },
			EvGlue { name: "AnonOf1And2Named", event: grid_ev_anon_of1_and2_named::event, filter: grid_ev_anon_of1_and2_named::filter, wildcard: grid_ev_anon_of1_and2_named::wildcard, parse: grid_ev_anon_of1_and2_named::parse },
			EvGlue { name: "AnonOf1And2Bare", event: grid_ev_anon_of1_and2_bare::event, filter: grid_ev_anon_of1_and2_bare::filter, wildcard: grid_ev_anon_of1_and2_bare::wildcard, parse: grid_ev_anon_of1_and2_bare::parse },
			EvGlue { name: "AnonOf1And2Mixed", event: grid_ev_anon_of1_and2_mixed::event, filter: grid_ev_anon_of1_and2_mixed::filter, wildcard: grid_ev_anon_of1_and2_mixed::wildcard, parse: grid_ev_anon_of1_and2_mixed::parse },
			EvGlue { name: "AnonOf1And3Named", event: grid_ev_anon_of1_and3_named::event, filter: grid_ev_anon_of1_and3_named::filter, wildcard: grid_ev_anon_of1_and3_named::wildcard, parse: grid_ev_anon_of1_and3_named::parse },
			EvGlue { name: "AnonOf1And3Bare", event: grid_ev_anon_of1_and3_bare::event, filter: grid_ev_anon_of1_and3_bare::filter, wildcard: grid_ev_anon_of1_and3_bare::wildcard, parse: grid_ev_anon_of1_and3_bare::parse },
			EvGlue { name: "AnonOf1And3Mixed", event: grid_ev_anon_of1_and3_mixed::event, filter: grid_ev_anon_of1_and3_mixed::filter, wildcard: grid_ev_anon_of1_and3_mixed::wildcard, parse: grid_ev_anon_of1_and3_mixed::parse },
			EvGlue { name: "AnonOf2And0Named", event: grid_ev_anon_of2_and0_named::event, filter: grid_ev_anon_of2_and0_named::filter, wildcard: grid_ev_anon_of2_and0_named::wildcard, parse: grid_ev_anon_of2_and0_named::parse },
			EvGlue { name: "AnonOf2And0Bare", event: grid_ev_anon_of2_and0_bare::event, filter: grid_ev_anon_of2_and0_bare::filter, wildcard: grid_ev_anon_of2_and0_bare::wildcard, parse: grid_ev_anon_of2_and0_bare::parse },
			EvGlue { name: "AnonOf2And0Mixed", event: grid_ev_anon_of2_and0_mixed::event, filter: grid_ev_anon_of2_and0_mixed::filter, wildcard: grid_ev_anon_of2_and0_mixed::wildcard, parse: grid_ev_anon_of2_and0_mixed::parse },
			EvGlue { name: "AnonOf2And1Named", event: grid_ev_anon_of2_and1_named::event, filter: grid_ev_anon_of2_and1_named::filter, wildcard: grid_ev_anon_of2_and1_named::wildcard, parse: grid_ev_anon_of2_and1_named::parse },
			EvGlue { name: "AnonOf2And1Bare", event: grid_ev_anon_of2_and1_bare::event, filter: grid_ev_anon_of2_and1_bare::filter, wildcard: grid_ev_anon_of2_and1_bare::wildcard, parse: grid_ev_anon_of2_and1_bare::parse },
			EvGlue { name: "AnonOf2And1Mixed", event: grid_ev_anon_of2_and1_mixed::event, filter: grid_ev_anon_of2_and1_mixed::filter, wildcard: grid_ev_anon_of2_and1_mixed::wildcard, parse: grid_ev_anon_of2_and1_mixed::parse },
			EvGlue { name: "AnonOf2And2Named", event: grid_ev_anon_of2_and2_named::event, filter: grid_ev_anon_of2_and2_named::filter, wildcard: grid_ev_anon_of2_and2_named::wildcard, parse: grid_ev_anon_of2_and2_named::parse },
			EvGlue { name: "AnonOf2And2Bare", event: grid_ev_anon_of2_and2_bare::event, filter: grid_ev_anon_of2_and2_bare::filter, wildcard: grid_ev_anon_of2_and2_bare::wildcard, parse: grid_ev_anon_of2_and2_bare::parse },
			EvGlue { name: "AnonOf2And2Mixed", event: grid_ev_anon_of2_and2_mixed::event, filter: grid_ev_anon_of2_and2_mixed::filter, wildcard: grid_ev_anon_of2_and2_mixed::wildcard, parse: grid_ev_anon_of2_and2_mixed::parse },
			EvGlue { name: "AnonOf2And3Named", event: grid_ev_anon_of2_and3_named::event, filter: grid_ev_anon_of2_and3_named::filter, wildcard: grid_ev_anon_of2_and3_named::wildcard, parse: grid_ev_anon_of2_and3_named::parse },
			EvGlue { name: "AnonOf2And3Bare", event: grid_ev_anon_of2_and3_bare::event, filter: grid_ev_anon_of2_and3_bare::filter, wildcard: grid_ev_anon_of2_and3_bare::wildcard, parse: grid_ev_anon_of2_and3_bare::parse },
			EvGlue { name: "AnonOf2And3Mixed", event: grid_ev_anon_of2_and3_mixed::event, filter: grid_ev_anon_of2_and3_mixed::filter, wildcard: grid_ev_anon_of2_and3_mixed::wildcard, parse: grid_ev_anon_of2_and3_mixed::parse },
			EvGlue { name: "AnonOf3And0Named", event: grid_ev_anon_of3_and0_named::event, filter: grid_ev_anon_of3_and0_named::filter, wildcard: grid_ev_anon_of3_and0_named::wildcard, parse: grid_ev_anon_of3_and0_named::parse },
			EvGlue { name: "AnonOf3And0Bare", event: grid_ev_anon_of3_and0_bare::event, filter: grid_ev_anon_of3_and0_bare::filter, wildcard: grid_ev_anon_of3_and0_bare::wildcard, parse: grid_ev_anon_of3_and0_bare::parse },
			EvGlue { name: "AnonOf3And0Mixed", event: grid_ev_anon_of3_and0_mixed::event, filter: grid_ev_anon_of3_and0_mixed::filter, wildcard: grid_ev_anon_of3_and0_mixed::wildcard, parse: grid_ev_anon_of3_and0_mixed::parse },
			EvGlue { name: "AnonOf3And1Named", event: grid_ev_anon_of3_and1_named::event, filter: grid_ev_anon_of3_and1_named::filter, wildcard: grid_ev_anon_of3_and1_named::wildcard, parse: grid_ev_anon_of3_and1_named::parse },
			EvGlue { name: "AnonOf3And1Bare", event: grid_ev_anon_of3_and1_bare::event, filter: grid_ev_anon_of3_and1_bare::filter, wildcard: grid_ev_anon_of3_and1_bare::wildcard, parse: grid_ev_anon_of3_and1_bare::parse },
			EvGlue { name: "AnonOf3And1Mixed", event: grid_ev_anon_of3_and1_mixed::event, filter: grid_ev_anon_of3_and1_mixed::filter, wildcard: grid_ev_anon_of3_and1_mixed::wildcard, parse: grid_ev_anon_of3_and1_mixed::parse },
			EvGlue { name: "AnonOf3And2Named", event: grid_ev_anon_of3_and2_named::event, filter: grid_ev_anon_of3_and2_named::filter, wildcard: grid_ev_anon_of3_and2_named::wildcard, parse: grid_ev_anon_of3_and2_named::parse },
			EvGlue { name: "AnonOf3And2Bare", event: grid_ev_anon_of3_and2_bare::event, filter: grid_ev_anon_of3_and2_bare::filter, wildcard: grid_ev_anon_of3_and2_bare::wildcard, parse: grid_ev_anon_of3_and2_bare::parse },
			EvGlue { name: "AnonOf3And2Mixed", event: grid_ev_anon_of3_and2_mixed::event, filter: grid_ev_anon_of3_and2_mixed::filter, wildcard: grid_ev_anon_of3_and2_mixed::wildcard, parse: grid_ev_anon_of3_and2_mixed::parse },
			EvGlue { name: "AnonOf3And3Named", event: grid_ev_anon_of3_and3_named::event, filter: grid_ev_anon_of3_and3_named::filter, wildcard: grid_ev_anon_of3_and3_named::wildcard, parse: grid_ev_anon_of3_and3_named::parse },
			EvGlue { name: "AnonOf3And3Bare", event: grid_ev_anon_of3_and3_bare::event, filter: grid_ev_anon_of3_and3_bare::filter, wildcard: grid_ev_anon_of3_and3_bare::wildcard, parse: grid_ev_anon_of3_and3_bare::parse },
			EvGlue { name: "AnonOf3And3Mixed", event: grid_ev_anon_of3_and3_mixed::event, filter: grid_ev_anon_of3_and3_mixed::filter, wildcard: grid_ev_anon_of3_and3_mixed::wildcard, parse: grid_ev_anon_of3_and3_mixed::parse },
			EvGlue { name: "AnonOf4And0Named", event: grid_ev_anon_of4_and0_named::event, filter: grid_ev_anon_of4_and0_named::filter, wildcard: grid_ev_anon_of4_and0_named::wildcard, parse: grid_ev_anon_of4_and0_named::parse },
			EvGlue { name: "AnonOf4And0Bare", event: grid_ev_anon_of4_and0_bare::event, filter: grid_ev_anon_of4_and0_bare::filter, wildcard: grid_ev_anon_of4_and0_bare::wildcard, parse: grid_ev_anon_of4_and0_bare::parse },
			EvGlue { name: "AnonOf4And0Mixed", event: grid_ev_anon_of4_and0_mixed::event, filter: grid_ev_anon_of4_and0_mixed::filter, wildcard: grid_ev_anon_of4_and0_mixed::wildcard, parse: grid_ev_anon_of4_and0_mixed::parse },
			EvGlue { name: "AnonOf4And1Named", event: grid_ev_anon_of4_and1_named::event, filter: grid_ev_anon_of4_and1_named::filter, wildcard: grid_ev_anon_of4_and1_named::wildcard, parse: grid_ev_anon_of4_and1_named::parse },
			EvGlue { name: "AnonOf4And1Bare", event: grid_ev_anon_of4_and1_bare::event, filter: grid_ev_anon_of4_and1_bare::filter, wildcard: grid_ev_anon_of4_and1_bare::wildcard, parse: grid_ev_anon_of4_and1_bare::parse },
			EvGlue { name: "AnonOf4And1Mixed", event: grid_ev_anon_of4_and1_mixed::event, filter: grid_ev_anon_of4_and1_mixed::filter, wildcard: grid_ev_anon_of4_and1_mixed::wildcard, parse: grid_ev_anon_of4_and1_mixed::parse },
			EvGlue { name: "AnonOf4And2Named", event: grid_ev_anon_of4_and2_named::event, filter: grid_ev_anon_of4_and2_named::filter, wildcard: grid_ev_anon_of4_and2_named::wildcard, parse: grid_ev_anon_of4_and2_named::parse },
			EvGlue { name: "AnonOf4And2Bare", event: grid_ev_anon_of4_and2_bare::event, filter: grid_ev_anon_of4_and2_bare::filter, wildcard: grid_ev_anon_of4_and2_bare::wildcard, parse: grid_ev_anon_of4_and2_bare::parse },
			EvGlue { name: "AnonOf4And2Mixed", event: grid_ev_anon_of4_and2_mixed::event, filter: grid_ev_anon_of4_and2_mixed::filter, wildcard: grid_ev_anon_of4_and2_mixed::wildcard, parse: grid_ev_anon_of4_and2_mixed::parse },
			EvGlue { name: "AnonOf4And3Named", event: grid_ev_anon_of4_and3_named::event, filter: grid_ev_anon_of4_and3_named::filter, wildcard: grid_ev_anon_of4_and3_named::wildcard, parse: grid_ev_anon_of4_and3_named::parse },
			EvGlue { name: "AnonOf4And3Bare", event: grid_ev_anon_of4_and3_bare::event, filter: grid_ev_anon_of4_and3_bare::filter, wildcard: grid_ev_anon_of4_and3_bare::wildcard, parse: grid_ev_anon_of4_and3_bare::parse },
			EvGlue { name: "AnonOf4And3Mixed", event: grid_ev_anon_of4_and3_mixed::event, filter: grid_ev_anon_of4_and3_mixed::filter, wildcard: grid_ev_anon_of4_and3_mixed::wildcard, parse: grid_ev_anon_of4_and3_mixed::parse },
		] },
	]
}
