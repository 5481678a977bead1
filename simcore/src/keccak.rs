//! Keccak-256, written from the specification: the oracle's own copy.
const RC: [u64; 24] = [
	0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b,
	0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088,
	0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089,
	0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
	0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [[u32; 5]; 5] =
	[[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]];

fn f(a: &mut [[u64; 5]; 5]) {
	for rc in RC.iter() {
		let mut c = [0u64; 5];
		for x in 0..5 {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
		}
		for x in 0..5 {
			let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
			for y in 0..5 {
				a[x][y] ^= d;
			}
		}
		let mut b = [[0u64; 5]; 5];
		for x in 0..5 {
			for y in 0..5 {
				b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(ROT[x][y]);
			}
		}
		for x in 0..5 {
			for y in 0..5 {
				a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
			}
		}
		a[0][0] ^= rc;
	}
}

pub fn keccak256(data: &[u8]) -> [u8; 32] {
	const RATE: usize = 136;
	let mut a = [[0u64; 5]; 5];
	let mut buf = data.to_vec();
	buf.push(1);
	while buf.len() % RATE != 0 {
		buf.push(0);
	}
	let n = buf.len();
	buf[n - 1] |= 0x80;
	for block in buf.chunks(RATE) {
		for (i, w) in block.chunks(8).enumerate() {
			a[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
		}
		f(&mut a);
	}
	let mut out = [0u8; 32];
	for i in 0..4 {
		out[i * 8..i * 8 + 8].copy_from_slice(&a[i][0].to_le_bytes());
	}
	out
}

#[test]
fn vectors() {
	let h = |b: &[u8]| keccak256(b).iter().map(|x| format!("{:02x}", x)).collect::<String>();
	assert_eq!(h(b""), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
	assert_eq!(h(b"transfer(address,uint256)")[..8], *"a9059cbb");
	assert_eq!(
		h(b"Transfer(address,address,uint256)"),
		"ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef"
	);
}
