//! Small contracts with results known from the language definition (Solidity 0.6), run before anything is judged.
use crate::{
    interp::{Stop, Tree, Vm},
    word::W,
};

const SRC: &str = r#"
pragma solidity ^0.6.4;
pragma experimental ABIEncoderV2;
library L {
    struct Pair { uint256 a; uint64 b; }
    function twice(uint256 x) internal pure returns (uint256) { return 2 * x; }
    function bump(Pair memory p) internal pure { p.a += 1; p.b--; }
    function len(uint256[] memory v) internal pure returns (uint256) { return v.length; }
    function len(bytes32[] memory v) internal pure returns (uint256) { return 100 + v.length; }
}
contract Base {
    uint256 immutable K;
    constructor(uint256 k) public { K = k; }
    modifier around(uint256[] memory v) { v[0] += 1; _; v[0] *= 10; }
    function kind() internal pure virtual returns (uint256) { return 1; }
    function both() public view returns (uint256) { return 1000 * K + kind(); }
}
contract Other {
    struct S { uint256[] v; bytes b; uint8 k; }
    function sum(S memory s, uint256 extra) public pure returns (uint256 r, bytes32 h) {
        for (uint256 i = 0; i < s.v.length; i++) { r += s.v[i]; s.v[i] = 0; }
        r += extra + s.k;
        h = keccak256(s.b);
    }
    function fails(bool yes) public pure returns (uint256) { require(!yes, 'told to'); return 5; }
    fallback() external { assembly { let x := mul(calldataload(0), calldataload(32)) mstore(0, x) return(0, 0x20) } }
}
contract T is Base(7) {
    using L for uint256;
    using L for L.Pair;
    using L for *;
    uint256 constant C = 2**200 + 5;
    function kind() internal pure override returns (uint256) { return 2; }
    function add8(uint8 a, uint8 b) public pure returns (uint8) { return a + b; }
    function sub64(uint64 a, uint64 b) public pure returns (uint64) { return a - b; }
    function shl8(uint8 a, uint256 b) public pure returns (uint8) { return a << b; }
    function widen(uint8 a, uint8 b) public pure returns (uint256) { return uint256(a) * b; }
    function mixed(uint8 a) public pure returns (uint256) { return a + 4; }
    function power(uint8 a) public pure returns (uint256) { return uint256(2)**a; }
    function narrow(uint256 a) public pure returns (uint64) { return uint64(a); }
    function front(bytes32 a) public pure returns (uint64) { return uint64(bytes8(a)); }
    function down(bytes32 a) public pure returns (bytes32) { a <<= 64; return a; }
    function back(uint64 a) public pure returns (bytes32) { return bytes32(uint256(a)); }
    function all1() public pure returns (uint256) { return uint256(-1); }
    function c() public pure returns (uint256) { return C; }
    function div(uint256 a, uint256 b) public pure returns (uint256, uint256) { return (a / b, a % b); }
    function prec(uint256 a, uint256 b) public pure returns (uint256) { return a | b << 2 & 12 ^ 1 + 2 * 3; }
    function swap(uint256[] memory v) public pure returns (uint256[] memory) { (v[0], v[1]) = (v[1], v[0]); return v; }
    function loop(uint256 n) public pure returns (uint256 r) {
        for (uint256 i; ; i++) { if (i == n) break; if (i % 2 == 1) continue; r += i; }
        while (r > 100) { r -= 7; }
        do { r++; } while (r % 5 != 0);
    }
    function lib(uint256 x) public pure returns (uint256, uint64) {
        L.Pair memory p = L.Pair({b: 1, a: x.twice()}); p.bump(); p.bump(); return (p.a, p.b);
    }
    function over(uint256[] memory a, bytes32[] memory b) public pure returns (uint256) { return a.len() + b.len(); }
    function oob(uint256[] memory a, uint256 i) public pure returns (uint256) { return a[i]; }
    function packed(uint64 a, bytes32 b, uint8 c, uint256[] memory d) public pure returns (bytes memory) {
        return abi.encodePacked(a, b, c, d, hex'0102');
    }
    function wrapped(uint256[] memory v) public around(v) returns (uint256) { v[0] += 5; return v[0]; }
    function outside(Other o, uint256[] memory v) public returns (uint256, bytes32, uint256) {
        Other.S memory s = Other.S(v, 'ab', 3);
        (uint256 r, bytes32 h) = o.sum(s, 10);
        return (r, h, s.v[0]);
    }
    function outfail(Other o, bool yes) public returns (uint256) { return 1 + o.fails(yes); }
    function raw(Other o) public returns (uint256 r) {
        uint256[] memory v = new uint256[](2);
        v[0] = 6; v[1] = 7;
        assembly { if iszero(call(gas(), o, 0, add(v, 0x20), 0x40, v, 0x20)) { revert(0, 0) } r := mload(v) }
    }
    function yul(uint256 a) public pure returns (uint256 r) {
        assembly {
            function f(x) -> y { y := add(x, 1) if gt(x, 5) { leave } y := mul(y, 2) }
            switch and(a, 3) case 0 { r := f(a) } case 1 { r := sub(0, 1) } default { for { let i := 0 } lt(i, a) { i := add(i, 1) } { r := add(r, i) } }
        }
    }
    function zeroed(uint256 n) public pure returns (uint256) { uint256[] memory v = new uint256[](n); return v[n - 1] + v.length; }
    function short(bool a, uint256 d) public pure returns (bool) { return a || 1 / d == 1; }
    function tern(uint256 a) public pure returns (uint256) { return a > 3 ? a - 3 : a + 3; }
    function gone(uint256 x) public pure returns (uint256 r) { { uint256 y = x; r = y; } return r + 1; }
    function named(uint256 a) public pure returns (uint256 r, bool b) { r = a; b = !b; }
}
"#;

/// panics if the interpreter deviates
pub fn self_check() {
    let mut vm = Vm::new(&[SRC.to_string()]).expect("conformance contracts");
    let o = vm.class("Other").and_then(|c| vm.deploy(c, &[])).expect("deploy");
    let t = vm.class("T").and_then(|c| vm.deploy(c, &[])).expect("deploy");
    let u = Tree::u;
    let s = |v: &[u64]| Tree::Seq(v.iter().map(|x| u(*x)).collect());
    let w = |h: &str| Tree::Word(W::hex(h));
    let addr = Tree::Word(Vm::address(o));
    let kec = |b: &[u8]| Tree::Word(W::from_be(&vcommon::keccak::keccak256(b)));
    let long = "00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff";
    let mut packed = vec![0, 0, 0, 0, 0, 0, 1, 2];
    packed.extend(hex::decode(long).unwrap());
    packed.push(9);
    packed.extend(W::u(4).be());
    packed.extend(W::u(5).be());
    packed.extend([1, 2]);
    let big = W::ONE.shl(W::u(200)).add(W::u(5));
    let cases: Vec<(&str, Vec<Tree>, Option<Vec<Tree>>)> = vec![
        ("both", vec![], Some(vec![u(7002)])),
        ("add8", vec![u(200), u(100)], Some(vec![u(44)])),
        ("sub64", vec![u(3), u(5)], Some(vec![u(u64::MAX - 1)])),
        ("shl8", vec![u(0x81), u(1)], Some(vec![u(2)])),
        ("widen", vec![u(200), u(100)], Some(vec![u(20000)])),
        ("mixed", vec![u(254)], Some(vec![u(2)])),
        ("power", vec![u(250)], Some(vec![Tree::Word(W::ONE.shl(W::u(250)))])),
        ("narrow", vec![w(long)], Some(vec![u(0x8899_aabb_ccdd_eeff)])),
        ("front", vec![w(long)], Some(vec![u(0x0011_2233_4455_6677)])),
        ("down", vec![w(long)], Some(vec![Tree::Word(W::hex(long).shl(W::u(64)))])),
        ("back", vec![u(258)], Some(vec![u(258)])),
        ("all1", vec![], Some(vec![Tree::Word(W::MAX)])),
        ("c", vec![], Some(vec![Tree::Word(big)])),
        ("div", vec![u(17), u(5)], Some(vec![u(3), u(2)])),
        ("div", vec![u(17), u(0)], None),
        ("prec", vec![u(16), u(3)], Some(vec![u(16 | (3 << 2 & 12) ^ 7)])),
        ("swap", vec![s(&[4, 5, 6])], Some(vec![s(&[5, 4, 6])])),
        ("loop", vec![u(5)], Some(vec![u(10)])),
        ("loop", vec![u(40)], Some(vec![u(105)])),
        ("lib", vec![u(21)], Some(vec![u(44), u(u64::MAX)])),
        ("over", vec![s(&[1, 2]), s(&[1])], Some(vec![u(103)])),
        ("oob", vec![s(&[1, 2]), u(1)], Some(vec![u(2)])),
        ("oob", vec![s(&[1, 2]), u(2)], None),
        ("packed", vec![u(258), w(long), u(9), s(&[4, 5])], Some(vec![Tree::Bytes(packed)])),
        ("wrapped", vec![s(&[1])], Some(vec![u(7)])),
        ("outside", vec![addr.clone(), s(&[1, 2])], Some(vec![u(16), kec(b"ab"), u(1)])),
        ("outfail", vec![addr.clone(), u(0)], Some(vec![u(6)])),
        ("outfail", vec![addr.clone(), u(1)], None),
        ("raw", vec![addr], Some(vec![u(42)])),
        ("yul", vec![u(4)], Some(vec![u(10)])),
        ("yul", vec![u(8)], Some(vec![u(9)])),
        ("yul", vec![u(5)], Some(vec![Tree::Word(W::MAX)])),
        ("yul", vec![u(6)], Some(vec![u(15)])),
        ("zeroed", vec![u(3)], Some(vec![u(3)])),
        ("short", vec![u(1), u(0)], Some(vec![u(1)])),
        ("short", vec![u(0), u(0)], None),
        ("tern", vec![u(5)], Some(vec![u(2)])),
        ("gone", vec![u(5)], Some(vec![u(6)])),
        ("named", vec![u(5)], Some(vec![u(5), u(1)])),
    ];
    for (name, args, want) in cases {
        match (vm.call(t, name, &args), want) {
            (Ok((r, _)), Some(x)) if r == x => {}
            (Err(Stop::Revert(_)), None) => {}
            (r, x) => panic!("interpreter: {}({:?}) gives {:?}, expected {:?}", name, args, r.map(|r| r.0), x),
        }
    }
}
