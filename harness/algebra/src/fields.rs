// Generated constants: small and large prime fields used as exhaustive test beds.
use zkp_primefield::Parameters;
use zkp_u256::U256;
macro_rules! field {
    ($n:ident, $p:expr, $m64:expr, $r1:expr, $r2:expr, $r3:expr, $g:expr, $o:expr) => {
        #[derive(PartialEq, Eq, Clone, Debug, Hash)]
        pub struct $n();
        impl Parameters for $n {
            type UInt = U256;
            const MODULUS: U256 = $p;
            const M64: u64 = $m64;
            const R1: U256 = $r1;
            const R2: U256 = $r2;
            const R3: U256 = $r3;
            const GENERATOR: U256 = $g;
            const ORDER: U256 = $o;
        }
    };
}
field!(F3, U256::from_limbs([0x0000000000000003, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0x5555555555555555, U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000002, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000002, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F5, U256::from_limbs([0x0000000000000005, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0x3333333333333333, U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000002, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000004, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F7, U256::from_limbs([0x0000000000000007, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0x9249249249249249, U256::from_limbs([0x0000000000000002, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000004, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000006, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000006, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F11, U256::from_limbs([0x000000000000000b, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0xd1745d1745d1745d, U256::from_limbs([0x0000000000000009, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000004, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000003, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000007, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x000000000000000a, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F13, U256::from_limbs([0x000000000000000d, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0xb13b13b13b13b13b, U256::from_limbs([0x0000000000000003, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000009, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000006, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x000000000000000c, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F17, U256::from_limbs([0x0000000000000011, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0x0f0f0f0f0f0f0f0f, U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000003, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000010, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F41, U256::from_limbs([0x0000000000000029, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0x7063e7063e7063e7, U256::from_limbs([0x0000000000000012, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000025, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x000000000000000a, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x000000000000001a, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000028, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F97, U256::from_limbs([0x0000000000000061, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0x5c5f02a3a0fd5c5f, U256::from_limbs([0x000000000000003d, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000023, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x000000000000000e, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000060, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F193, U256::from_limbs([0x00000000000000c1, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0x8f40feac6f6b70bf, U256::from_limbs([0x0000000000000054, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x000000000000006c, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000022, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x00000000000000c0, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F257, U256::from_limbs([0x0000000000000101, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0x00ff00ff00ff00ff, U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000003, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000100, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(F65537, U256::from_limbs([0x0000000000010001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0x0000ffff0000ffff, U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000003, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000010000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(Goldilocks, U256::from_limbs([0xffffffff00000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), 0xfffffffeffffffff, U256::from_limbs([0x00000000ffffffff, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0xfffffffe00000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x00000006fffffff9, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0xffffffff00000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]));
field!(Bn254, U256::from_limbs([0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029]), 0xc2e1f593efffffff, U256::from_limbs([0xac96341c4ffffffb, 0x36fc76959f60cd29, 0x666ea36f7879462e, 0x0e0a77c19a07df2f]), U256::from_limbs([0x1bb8e645ae216da7, 0x53fe3ab1e35c59e3, 0x8c49833d53bb8085, 0x0216d0b17f4e44a5]), U256::from_limbs([0x5e94d8e1b4bf0040, 0x2a489cbe1cfbb6b8, 0x893cc664a19fcfed, 0x0cf8594b7fcc657c]), U256::from_limbs([0x1b0d0ef99fffffe6, 0xeaba68a3a32a913f, 0x47d8eb76d8dd0689, 0x15d0085520f5bbc3]), U256::from_limbs([0x43e1f593f0000000, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029]));
field!(P25519, U256::from_limbs([0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff]), 0x86bca1af286bca1b, U256::from_limbs([0x0000000000000026, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x00000000000005a4, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x000000000000d658, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0x000000000000004c, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]), U256::from_limbs([0xffffffffffffffec, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff]));

field!(Limb1, U256::from_limbs([0x0000000000000001, 0x49a35964d9f3dd45, 0x0000000000000000, 0x05f719ea9e475394]), 0xffffffffffffffff, U256::from_limbs([0xffffffffffffffd6, 0xeb3355743dfdb2ad, 0xfffffffffffffff3, 0x0575bf82084c49b7]), U256::from_limbs([0x505dbfd7432afd32, 0x172adad9bfd7b67a, 0x80f0ad6634cc0c4b, 0x01d29416b51e4d7a]), U256::from_limbs([0x999995c95de63d30, 0x3930165490189fb3, 0xd1b94e5bbe3904ae, 0x0311921228e5ee0c]), U256::from_limbs([0xffffffffffffff80, 0x2e534d9306115d7f, 0xffffffffffffffdb, 0x04730ab0dc5635ff]), U256::from_limbs([0x0000000000000000, 0x49a35964d9f3dd45, 0x0000000000000000, 0x05f719ea9e475394]));
field!(Limb2, U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x3f1efd5b7dca9203, 0x055122657f8870a9]), 0xffffffffffffffff, U256::from_limbs([0xffffffffffffffd0, 0xffffffffffffffff, 0x2a307ed86a049f6f, 0x00c98cf8166ae044]), U256::from_limbs([0x5a22cf1dd91ab8eb, 0x72450a64476d15ad, 0x3a9c19e0080f46dc, 0x00235ce42a38455f]), U256::from_limbs([0xc3f96c38a5cee234, 0xf2a84c8bd25033d2, 0xbe40b87b6b011c70, 0x021f41eae1e0f84a]), U256::from_limbs([0xffffffffffffff70, 0xffffffffffffffff, 0x7e917c893e0dde4f, 0x025ca6e84340a0cc]), U256::from_limbs([0x0000000000000000, 0x0000000000000000, 0x3f1efd5b7dca9203, 0x055122657f8870a9]));
field!(Limb0, U256::from_limbs([0x00000000c8789ae3, 0x0000000000000000, 0x0000000000000000, 0x064ee4540ad3f2d6]), 0x7998c31fc4308535, U256::from_limbs([0xffffffe0ad27cc88, 0xffffffffffffffff, 0xffffffffffffffff, 0x03ac52de4ee20e8f]), U256::from_limbs([0xe57c527060f3023a, 0xb3f524cf17a9e562, 0xe11fe5dade3ff69a, 0x0405b11e3932bf10]), U256::from_limbs([0x0af251438da02d12, 0xe13e7da34a0e222e, 0x4efc96fe0aa43bca, 0x000338820037c66e]), U256::from_limbs([0xffffffc091d6fe2d, 0xffffffffffffffff, 0xffffffffffffffff, 0x0109c16892f02a49]), U256::from_limbs([0x00000000c8789ae2, 0x0000000000000000, 0x0000000000000000, 0x064ee4540ad3f2d6]));
field!(Limb12, U256::from_limbs([0x0000000000000001, 0xbd5480a6b5a8e33b, 0x0c2fb7bca58d41a4, 0x0000000000000000]), 0xffffffffffffffff, U256::from_limbs([0xfe335c8461f9d3ea, 0x2dc20de69f0c54d8, 0x0c1b894a6ff06ed8, 0x0000000000000000]), U256::from_limbs([0xfadf02097e769e3d, 0x3f4b2ed0648dcf5c, 0x0960cf098a784b88, 0x0000000000000000]), U256::from_limbs([0xc7aef9a26350aed2, 0x9173b0bddc5fb56f, 0x09b9e1fa044d6dbb, 0x0000000000000000]), U256::from_limbs([0xfa9a158d25ed7bbc, 0x0e9d286671d33814, 0x0bf32c6604b6c93f, 0x0000000000000000]), U256::from_limbs([0x0000000000000000, 0xbd5480a6b5a8e33b, 0x0c2fb7bca58d41a4, 0x0000000000000000]));
field!(Proth2, U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x11c582d0401e0548]), 0xffffffffffffffff, U256::from_limbs([0xfffffffffffffff2, 0xffffffffffffffff, 0xffffffffffffffff, 0x0732d89c7e5bb60f]), U256::from_limbs([0xec486b1c903488cf, 0xe2e4832d633a98a7, 0xd1b9deb51e172f08, 0x069cac0b41d78fe2]), U256::from_limbs([0x0304ce443673ed9b, 0xfafde3444d80374e, 0xb1f2ae5d285a41e5, 0x0bde6c4c85113280]), U256::from_limbs([0xffffffffffffff62, 0xffffffffffffffff, 0xffffffffffffffff, 0x081943786d78bd8f]), U256::from_limbs([0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x11c582d0401e0548]));
field!(ProthSmall, U256::from_limbs([0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000085]), 0xffffffffffffffff, U256::from_limbs([0xfe133f84cfe133f9, 0xffffffffffffffff, 0xffffffffffffffff, 0x000000000000005c]), U256::from_limbs([0x977b33d34071ecfc, 0x33fc01727d797ea5, 0xf84cfe133f84cfe1, 0x000000000000001f]), U256::from_limbs([0x667a4b87da300315, 0x3a87bc3dee313043, 0x78df4ee80a9aff0c, 0x0000000000000049]), U256::from_limbs([0xfa39be8e6fa39be9, 0xffffffffffffffff, 0xffffffffffffffff, 0x000000000000000c]), U256::from_limbs([0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000085]));
