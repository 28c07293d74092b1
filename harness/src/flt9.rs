//! floats and their texts (written by tools/gen09.py)
use crate::pre::*;
pub static F64: &[(u64, &str)] = &[(0x0, "0.0"), (0x8000000000000000, "-0.0"), (0x3fb999999999999a, "0.1"), (0xbfb999999999999a, "-0.1"), (0x3fc999999999999a, "0.2"), (0xbfc999999999999a, "-0.2"), (0x3fd3333333333333, "0.3"), (0xbfd3333333333333, "-0.3"), (0x3fe0000000000000, "0.5"), (0xbfe0000000000000, "-0.5"), (0x3ff8000000000000, "1.5"), (0xbff8000000000000, "-1.5"), (0x4004000000000000, "2.5"), (0xc004000000000000, "-2.5"), (0x400c000000000000, "3.5"), (0xc00c000000000000, "-3.5"), (0x3fe8000000000000, "0.75"), (0xbfe8000000000000, "-0.75"), (0x3ff4000000000000, "1.25"), (0xbff4000000000000, "-1.25"), (0x4058ff5c28f5c28f, "99.99"), (0xc058ff5c28f5c28f, "-99.99"), (0x4059200000000000, "100.5"), (0xc059200000000000, "-100.5"), (0x405edd2f1a9fbe77, "123.456"), (0xc05edd2f1a9fbe77, "-123.456"), (0x3f50624dd2f1a9fc, "0.001"), (0xbf50624dd2f1a9fc, "-0.001"), (0x40c81cd6c8b43958, "12345.678"), (0xc0c81cd6c8b43958, "-12345.678"), (0x3fd3333333333334, "0.30000000000000004"), (0xbfd3333333333334, "-0.30000000000000004"), (0x400921fb54442d18, "3.141592653589793"), (0xc00921fb54442d18, "-3.141592653589793"), (0x4005bf0a8b145769, "2.718281828459045"), (0xc005bf0a8b145769, "-2.718281828459045"), (0x1, "5e-324"), (0x8000000000000001, "-5e-324"), (0x10000000000000, "2.2250738585072014e-308"), (0x8010000000000000, "-2.2250738585072014e-308"), (0x7fefffffffffffff, "1.7976931348623157e308"), (0xffefffffffffffff, "-1.7976931348623157e308"), (0x2710, "4.9407e-320"), (0x8000000000002710, "-4.9407e-320"), (0x4340000000000000, "9007199254740992.0"), (0xc340000000000000, "-9007199254740992.0"), (0x3fe9999999999999, "0.7999999999999999"), (0xbfe9999999999999, "-0.7999999999999999"), (0x3d719799812dea11, "1e-12"), (0xbd719799812dea11, "-1e-12"), (0x3d75b7b198f1a427, "1.2344999999999998e-12"), (0xbd75b7b198f1a427, "-1.2344999999999998e-12"), (0x3da5fd7fddc8eb6c, "9.999999900000001e-12"), (0xbda5fd7fddc8eb6c, "-9.999999900000001e-12"), (0x3da5fd7fe1796495, "1e-11"), (0xbda5fd7fe1796495, "-1e-11"), (0x3dab259dff2e0d31, "1.2344999999999999e-11"), (0xbdab259dff2e0d31, "-1.2344999999999999e-11"), (0x3ddb7cdfd53b2646, "9.9999999e-11"), (0xbddb7cdfd53b2646, "-9.9999999e-11"), (0x3ddb7cdfd9d7bdbb, "1e-10"), (0xbddb7cdfd9d7bdbb, "-1e-10"), (0x3de0f782bf7cc83f, "1.2345e-10"), (0xbde0f782bf7cc83f, "-1.2345e-10"), (0x3e112e0be544f7ec, "9.9999999e-10"), (0xbe112e0be544f7ec, "-9.9999999e-10"), (0x3e112e0be826d695, "1e-9"), (0xbe112e0be826d695, "-1e-9"), (0x3e1535636f5bfa4f, "1.2345e-9"), (0xbe1535636f5bfa4f, "-1.2345e-9"), (0x3e45798ede9635e8, "9.999999900000002e-9"), (0xbe45798ede9635e8, "-9.999999900000002e-9"), (0x3e45798ee2308c3a, "1e-8"), (0xbe45798ee2308c3a, "-1e-8"), (0x3e4a82bc4b32f8e2, "1.2344999999999999e-8"), (0xbe4a82bc4b32f8e2, "-1.2344999999999999e-8"), (0x3e7ad7f2963bc361, "9.9999999e-8"), (0xbe7ad7f2963bc361, "-9.9999999e-8"), (0x3e7ad7f29abcaf48, "1e-7"), (0xbe7ad7f29abcaf48, "-1e-7"), (0x3e8091b5aeffdb8d, "1.2344999999999998e-7"), (0xbe8091b5aeffdb8d, "-1.2344999999999998e-7"), (0x3eb0c6f79de55a1c, "9.9999999e-7"), (0xbeb0c6f79de55a1c, "-9.9999999e-7"), (0x3eb0c6f7a0b5ed8d, "1e-6"), (0xbeb0c6f7a0b5ed8d, "-1e-6"), (0x3eb4b6231abfd270, "1.2344999999999998e-6"), (0xbeb4b6231abfd270, "-1.2344999999999998e-6"), (0x3ee4f8b5855eb0a4, "9.999999900000001e-6"), (0xbee4f8b5855eb0a4, "-9.999999900000001e-6"), (0x3ee4f8b588e368f1, "0.00001"), (0xbee4f8b588e368f1, "-0.00001"), (0x3ee9e3abe16fc70d, "0.000012345"), (0xbee9e3abe16fc70d, "-0.000012345"), (0x3f1a36e2e6b65ccd, "0.00009999999900000001"), (0xbf1a36e2e6b65ccd, "-0.00009999999900000001"), (0x3f1a36e2eb1c432d, "0.0001"), (0xbf1a36e2eb1c432d, "-0.0001"), (0x3f202e4b6ce5dc68, "0.00012345"), (0xbf202e4b6ce5dc68, "-0.00012345"), (0x3f50624dd031fa00, "0.00099999999"), (0xbf50624dd031fa00, "-0.00099999999"), (0x3f5439de481f5382, "0.0012345"), (0xbf5439de481f5382, "-0.0012345"), (0x3f847ae1443e7880, "0.0099999999"), (0xbf847ae1443e7880, "-0.0099999999"), (0x3f847ae147ae147b, "0.01"), (0xbf847ae147ae147b, "-0.01"), (0x3f894855da272863, "0.012345"), (0xbf894855da272863, "-0.012345"), (0x3fb99999954e16a0, "0.099999999"), (0xbfb99999954e16a0, "-0.099999999"), (0x3fbf9a6b50b0f27c, "0.12345"), (0xbfbf9a6b50b0f27c, "-0.12345"), (0x3feffffffaa19c48, "0.9999999900000001"), (0xbfeffffffaa19c48, "-0.9999999900000001"), (0x3ff0000000000000, "1.0"), (0xbff0000000000000, "-1.0"), (0x3ff3c083126e978d, "1.2345"), (0xbff3c083126e978d, "-1.2345"), (0x4023fffffca501ad, "9.9999999"), (0xc023fffffca501ad, "-9.9999999"), (0x4024000000000000, "10.0"), (0xc024000000000000, "-10.0"), (0x4028b0a3d70a3d70, "12.344999999999999"), (0xc028b0a3d70a3d70, "-12.344999999999999"), (0x4058fffffbce4218, "99.999999"), (0xc058fffffbce4218, "-99.999999"), (0x4059000000000000, "100.0"), (0xc059000000000000, "-100.0"), (0x405edccccccccccc, "123.44999999999999"), (0xc05edccccccccccc, "-123.44999999999999"), (0x408f3ffffac1d29e, "999.99999"), (0xc08f3ffffac1d29e, "-999.99999"), (0x408f400000000000, "1000.0"), (0xc08f400000000000, "-1000.0"), (0x40934a0000000000, "1234.5"), (0xc0934a0000000000, "-1234.5"), (0x40c387fffcb923a3, "9999.9999"), (0xc0c387fffcb923a3, "-9999.9999"), (0x40c3880000000000, "10000.0"), (0xc0c3880000000000, "-10000.0"), (0x40c81c8000000000, "12345.0"), (0xc0c81c8000000000, "-12345.0"), (0x40f869fffbe76c8c, "99999.99900000001"), (0xc0f869fffbe76c8c, "-99999.99900000001"), (0x40f86a0000000000, "100000.0"), (0xc0f86a0000000000, "-100000.0"), (0x40fe23a000000000, "123450.0"), (0xc0fe23a000000000, "-123450.0"), (0x412e847ffae147af, "999999.9900000001"), (0xc12e847ffae147af, "-999999.9900000001"), (0x412e848000000000, "1000000.0"), (0xc12e848000000000, "-1000000.0"), (0x4132d64400000000, "1234500.0"), (0xc132d64400000000, "-1234500.0"), (0x416312cffccccccd, "9999999.9"), (0xc16312cffccccccd, "-9999999.9"), (0x416312d000000000, "10000000.0"), (0xc16312d000000000, "-10000000.0"), (0x41678bd500000000, "12345000.0"), (0xc1678bd500000000, "-12345000.0"), (0x4197d783fc000000, "99999999.0"), (0xc197d783fc000000, "-99999999.0"), (0x4197d78400000000, "100000000.0"), (0xc197d78400000000, "-100000000.0"), (0x419d6eca40000000, "123450000.0"), (0xc19d6eca40000000, "-123450000.0"), (0x41cdcd64fb000001, "999999990.0000001"), (0xc1cdcd64fb000001, "-999999990.0000001"), (0x41cdcd6500000000, "1000000000.0"), (0xc1cdcd6500000000, "-1000000000.0"), (0x41d2653e68000000, "1234500000.0"), (0xc1d2653e68000000, "-1234500000.0"), (0x4202a05f1ce00000, "9999999900.0"), (0xc202a05f1ce00000, "-9999999900.0"), (0x4202a05f20000000, "10000000000.0"), (0xc202a05f20000000, "-10000000000.0"), (0x4206fe8e02000000, "12345000000.0"), (0xc206fe8e02000000, "-12345000000.0"), (0x42374876e4180000, "99999999000.0"), (0xc2374876e4180000, "-99999999000.0"), (0x42374876e8000000, "100000000000.0"), (0xc2374876e8000000, "-100000000000.0"), (0x423cbe3182800000, "123450000000.0"), (0xc23cbe3182800000, "-123450000000.0"), (0x426d1a949d1e0000, "999999990000.0"), (0xc26d1a949d1e0000, "-999999990000.0"), (0x426d1a94a2000000, "1000000000000.0"), (0xc26d1a94a2000000, "-1000000000000.0"), (0x4271f6def1900000, "1234500000000.0"), (0xc271f6def1900000, "-1234500000000.0"), (0x42a2309ce232c000, "9999999900000.0"), (0xc2a2309ce232c000, "-9999999900000.0"), (0x42a2309ce5400000, "10000000000000.0"), (0xc2a2309ce5400000, "-10000000000000.0"), (0x42a67496adf40000, "12345000000000.0"), (0xc2a67496adf40000, "-12345000000000.0"), (0x42d6bcc41abf7000, "99999999000000.0"), (0xc2d6bcc41abf7000, "-99999999000000.0"), (0x42d6bcc41e900000, "100000000000000.0"), (0xc2d6bcc41e900000, "-100000000000000.0"), (0x42dc11bc59710000, "123450000000000.0"), (0xc2dc11bc59710000, "-123450000000000.0"), (0x430c6bf5216f4c00, "999999990000000.0"), (0xc30c6bf5216f4c00, "-999999990000000.0"), (0x430c6bf526340000, "1000000000000000.0"), (0xc30c6bf526340000, "-1000000000000000.0"), (0x43118b15b7e6a000, "1234500000000000.0"), (0xc3118b15b7e6a000, "-1234500000000000.0"), (0x4341c37934e58f80, "9999999900000000.0"), (0xc341c37934e58f80, "-9999999900000000.0"), (0x4341c37937e08000, "1e16"), (0xc341c37937e08000, "-1e16"), (0x4345eddb25e04800, "1.2345e16"), (0xc345eddb25e04800, "-1.2345e16"), (0x43763457821ef360, "9.9999999e16"), (0xc3763457821ef360, "-9.9999999e16"), (0x4376345785d8a000, "1e17"), (0xc376345785d8a000, "-1e17"), (0x437b6951ef585a00, "1.2345e17"), (0xc37b6951ef585a00, "-1.2345e17"), (0x43abc16d62a6b038, "9.9999999e17"), (0xc3abc16d62a6b038, "-9.9999999e17"), (0x43abc16d674ec800, "1e18"), (0xc3abc16d674ec800, "-1e18"), (0x43b121d335973840, "1.2345e18"), (0xc3b121d335973840, "-1.2345e18"), (0x43e158e45da82e23, "9.9999999e18"), (0xc3e158e45da82e23, "-9.9999999e18"), (0x43e158e460913d00, "1e19"), (0xc3e158e460913d00, "-1e19"), (0x43e56a4802fd0650, "1.2345e19"), (0xc3e56a4802fd0650, "-1.2345e19"), (0x4415af1d751239ac, "9.9999999e19"), (0xc415af1d751239ac, "-9.9999999e19"), (0x4415af1d78b58c40, "1e20"), (0xc415af1d78b58c40, "-1e20"), (0x441ac4da03bc47e4, "1.2345e20"), (0xc41ac4da03bc47e4, "-1.2345e20"), (0x444b1ae4d256c817, "9.9999999e20"), (0xc44b1ae4d256c817, "-9.9999999e20"), (0x444b1ae4d6e2ef50, "1e21"), (0xc44b1ae4d6e2ef50, "-1e21"), (0x4450bb084255acee, "1.2345e21"), (0xc450bb084255acee, "-1.2345e21"), (0x4480f0cf03763d0e, "9.9999999e21"), (0xc480f0cf03763d0e, "-9.9999999e21"), (0x4480f0cf064dd592, "1e22"), (0xc480f0cf064dd592, "-1e22"), (0x4484e9ca52eb182a, "1.2345e22"), (0xc484e9ca52eb182a, "-1.2345e22"), (0x44b52d02c453cc52, "9.9999999e22"), (0xc4b52d02c453cc52, "-9.9999999e22"), (0x44b52d02c7e14af7, "1.0000000000000001e23"), (0xc4b52d02c7e14af7, "-1.0000000000000001e23"), (0x44ba243ce7a5de35, "1.2345e23"), (0xc4ba243ce7a5de35, "-1.2345e23"), (0x44ea78437568bf67, "9.999999900000001e23"), (0xc4ea78437568bf67, "-9.999999900000001e23"), (0x44ea784379d99db4, "1e24"), (0xc4ea784379d99db4, "-1e24"), (0x44f056a610c7aae1, "1.2345e24"), (0xc4f056a610c7aae1, "-1.2345e24"), (0x45208b2a296177a0, "9.9999999e24"), (0xc5208b2a296177a0, "-9.9999999e24"), (0x46293e5939a08cea, "1e30"), (0xc6293e5939a08cea, "-1e30"), (0x462f29c4eeb155e4, "1.2344999999999999e30"), (0xc62f29c4eeb155e4, "-1.2344999999999999e30"), (0x465f8def82bd6f73, "9.999999900000001e30"), (0xc65f8def82bd6f73, "-9.999999900000001e30"), (0x47d2ced32a16a1b1, "1e38"), (0xc7d2ced32a16a1b1, "-1e38"), (0x47d737e6baff85d1, "1.2345e38"), (0xc7d737e6baff85d1, "-1.2345e38"), (0x48078287f0aa8c2d, "9.999999900000001e38"), (0xc8078287f0aa8c2d, "-9.999999900000001e38"), (0x4a511b0ec57e649a, "1e50"), (0xca511b0ec57e649a, "-1e50"), (0x4a551df25d05a1d3, "1.2345e50"), (0xca551df25d05a1d3, "-1.2345e50"), (0x4a8561d27347a2e2, "9.999999900000001e50"), (0xca8561d27347a2e2, "-9.999999900000001e50"), (0x54b249ad2594c37d, "1e100"), (0xd4b249ad2594c37d, "-1e100"), (0x54b693878aae8f89, "1.2344999999999999e100"), (0xd4b693878aae8f89, "-1.2344999999999999e100"), (0x54e6dc186b2422c7, "9.999999900000001e100"), (0xd4e6dc186b2422c7, "-9.999999900000001e100"), (0x6974e718d7d7625a, "1e200"), (0xe974e718d7d7625a, "-1e200"), (0x6979cdede69dbb55, "1.2344999999999998e200"), (0xe979cdede69dbb55, "-1.2344999999999998e200"), (0x69aa20df096b061b, "9.9999999e200"), (0xe9aa20df096b061b, "-9.9999999e200"), (0x7e37e43c8800759c, "1e300"), (0xfe37e43c8800759c, "-1e300"), (0x7e3d7e7e70161236, "1.2345e300"), (0xfe3d7e7e70161236, "-1.2345e300"), (0x7e6ddd4ba4fde812, "9.999999900000001e300"), (0xfe6ddd4ba4fde812, "-9.999999900000001e300"), (0x3bc79ca10c924223, "1e-20"), (0xbbc79ca10c924223, "-1e-20"), (0x3bcd2618391e8a38, "1.2344999999999998e-20"), (0xbbcd2618391e8a38, "-1.2344999999999998e-20"), (0x3bfd83c94ac32c1f, "9.999999900000001e-20"), (0xbbfd83c94ac32c1f, "-9.999999900000001e-20"), (0x380b38fb9daa78e4, "1e-38"), (0xb80b38fb9daa78e4, "-1e-38"), (0x3810cd9acc436665, "1.2345e-38"), (0xb810cd9acc436665, "-1.2345e-38"), (0x3841039d3fafcb59, "9.9999999e-38"), (0xb841039d3fafcb59, "-9.9999999e-38"), (0x3696d601ad376ab9, "1e-45"), (0xb696d601ad376ab9, "-1e-45"), (0x369c30e5244cbb6d, "1.2344999999999998e-45"), (0xb69c30e5244cbb6d, "-1.2344999999999998e-45"), (0x36cc8b8213bb4652, "9.999999900000001e-45"), (0xb6cc8b8213bb4652, "-9.999999900000001e-45"), (0x2b2bff2ee48e0530, "1e-100"), (0xab2bff2ee48e0530, "-1e-100"), (0x2b3147f19dd7eb02, "1.2345e-100"), (0xab3147f19dd7eb02, "-1.2345e-100"), (0x2b617f7d4be93aa3, "9.999999900000002e-100"), (0xab617f7d4be93aa3, "-9.999999900000002e-100"), (0x1a56e1fc2f8f359, "1e-300"), (0x81a56e1fc2f8f359, "-1e-300"), (0x1aa749ec2ff5c8a, "1.2345e-300"), (0x81aa749ec2ff5c8a, "-1.2345e-300"), (0x1dac9a7af38aa25, "9.999999900000001e-300"), (0x81dac9a7af38aa25, "-9.999999900000001e-300"), (0x4020000000000000, "8.0"), (0xc020000000000000, "-8.0"), (0x401c000000000000, "7.0"), (0xc01c000000000000, "-7.0"), (0x4021000000000000, "8.5"), (0xc021000000000000, "-8.5"), (0x3fc0000000000000, "0.125"), (0xbfc0000000000000, "-0.125"), (0x4050000000000000, "64.0"), (0xc050000000000000, "-64.0"), (0x404f800000000000, "63.0"), (0xc04f800000000000, "-63.0"), (0x4050200000000000, "64.5"), (0xc050200000000000, "-64.5"), (0x3f90000000000000, "0.015625"), (0xbf90000000000000, "-0.015625"), (0x4080000000000000, "512.0"), (0xc080000000000000, "-512.0"), (0x407ff00000000000, "511.0"), (0xc07ff00000000000, "-511.0"), (0x4080040000000000, "512.5"), (0xc080040000000000, "-512.5"), (0x3f60000000000000, "0.001953125"), (0xbf60000000000000, "-0.001953125"), (0x40b0000000000000, "4096.0"), (0xc0b0000000000000, "-4096.0"), (0x40affe0000000000, "4095.0"), (0xc0affe0000000000, "-4095.0"), (0x40b0008000000000, "4096.5"), (0xc0b0008000000000, "-4096.5"), (0x3f30000000000000, "0.000244140625"), (0xbf30000000000000, "-0.000244140625"), (0x40e0000000000000, "32768.0"), (0xc0e0000000000000, "-32768.0"), (0x40dfffc000000000, "32767.0"), (0xc0dfffc000000000, "-32767.0"), (0x40e0001000000000, "32768.5"), (0xc0e0001000000000, "-32768.5"), (0x3f00000000000000, "0.000030517578125"), (0xbf00000000000000, "-0.000030517578125"), (0x4110000000000000, "262144.0"), (0xc110000000000000, "-262144.0"), (0x410ffff800000000, "262143.0"), (0xc10ffff800000000, "-262143.0"), (0x4110000200000000, "262144.5"), (0xc110000200000000, "-262144.5"), (0x3ed0000000000000, "3.814697265625e-6"), (0xbed0000000000000, "-3.814697265625e-6"), (0x4140000000000000, "2097152.0"), (0xc140000000000000, "-2097152.0"), (0x413fffff00000000, "2097151.0"), (0xc13fffff00000000, "-2097151.0"), (0x4140000040000000, "2097152.5"), (0xc140000040000000, "-2097152.5"), (0x3ea0000000000000, "4.76837158203125e-7"), (0xbea0000000000000, "-4.76837158203125e-7"), (0x4170000000000000, "16777216.0"), (0xc170000000000000, "-16777216.0"), (0x416fffffe0000000, "16777215.0"), (0xc16fffffe0000000, "-16777215.0"), (0x4170000008000000, "16777216.5"), (0xc170000008000000, "-16777216.5"), (0x3e70000000000000, "5.960464477539063e-8"), (0xbe70000000000000, "-5.960464477539063e-8"), (0x41a0000000000000, "134217728.0"), (0xc1a0000000000000, "-134217728.0"), (0x419ffffffc000000, "134217727.0"), (0xc19ffffffc000000, "-134217727.0"), (0x41a0000001000000, "134217728.5"), (0xc1a0000001000000, "-134217728.5"), (0x3e40000000000000, "7.450580596923828e-9"), (0xbe40000000000000, "-7.450580596923828e-9"), (0x41d0000000000000, "1073741824.0"), (0xc1d0000000000000, "-1073741824.0"), (0x41cfffffff800000, "1073741823.0"), (0xc1cfffffff800000, "-1073741823.0"), (0x41d0000000200000, "1073741824.5"), (0xc1d0000000200000, "-1073741824.5"), (0x3e10000000000000, "9.313225746154785e-10"), (0xbe10000000000000, "-9.313225746154785e-10"), (0x4200000000000000, "8589934592.0"), (0xc200000000000000, "-8589934592.0"), (0x41fffffffff00000, "8589934591.0"), (0xc1fffffffff00000, "-8589934591.0"), (0x4200000000040000, "8589934592.5"), (0xc200000000040000, "-8589934592.5"), (0x3de0000000000000, "1.1641532182693481e-10"), (0xbde0000000000000, "-1.1641532182693481e-10"), (0x4230000000000000, "68719476736.0"), (0xc230000000000000, "-68719476736.0"), (0x422ffffffffe0000, "68719476735.0"), (0xc22ffffffffe0000, "-68719476735.0"), (0x4230000000008000, "68719476736.5"), (0xc230000000008000, "-68719476736.5"), (0x3db0000000000000, "1.4551915228366852e-11"), (0xbdb0000000000000, "-1.4551915228366852e-11"), (0x4260000000000000, "549755813888.0"), (0xc260000000000000, "-549755813888.0"), (0x425fffffffffc000, "549755813887.0"), (0xc25fffffffffc000, "-549755813887.0"), (0x4260000000001000, "549755813888.5"), (0xc260000000001000, "-549755813888.5"), (0x3d80000000000000, "1.8189894035458565e-12"), (0xbd80000000000000, "-1.8189894035458565e-12"), (0x4290000000000000, "4398046511104.0"), (0xc290000000000000, "-4398046511104.0"), (0x428ffffffffff800, "4398046511103.0"), (0xc28ffffffffff800, "-4398046511103.0"), (0x4290000000000200, "4398046511104.5"), (0xc290000000000200, "-4398046511104.5"), (0x3d50000000000000, "2.2737367544323206e-13"), (0xbd50000000000000, "-2.2737367544323206e-13"), (0x42c0000000000000, "35184372088832.0"), (0xc2c0000000000000, "-35184372088832.0"), (0x42bfffffffffff00, "35184372088831.0"), (0xc2bfffffffffff00, "-35184372088831.0"), (0x42c0000000000040, "35184372088832.5"), (0xc2c0000000000040, "-35184372088832.5"), (0x3d20000000000000, "2.842170943040401e-14"), (0xbd20000000000000, "-2.842170943040401e-14"), (0x42f0000000000000, "281474976710656.0"), (0xc2f0000000000000, "-281474976710656.0"), (0x42efffffffffffe0, "281474976710655.0"), (0xc2efffffffffffe0, "-281474976710655.0"), (0x42f0000000000008, "281474976710656.5"), (0xc2f0000000000008, "-281474976710656.5"), (0x3cf0000000000000, "3.552713678800501e-15"), (0xbcf0000000000000, "-3.552713678800501e-15"), (0x4320000000000000, "2251799813685248.0"), (0xc320000000000000, "-2251799813685248.0"), (0x431ffffffffffffc, "2251799813685247.0"), (0xc31ffffffffffffc, "-2251799813685247.0"), (0x4320000000000001, "2251799813685248.5"), (0xc320000000000001, "-2251799813685248.5"), (0x3cc0000000000000, "4.440892098500626e-16"), (0xbcc0000000000000, "-4.440892098500626e-16"), (0x4350000000000000, "1.8014398509481984e16"), (0xc350000000000000, "-1.8014398509481984e16"), (0x3c90000000000000, "5.551115123125783e-17"), (0xbc90000000000000, "-5.551115123125783e-17"), (0x4380000000000000, "1.4411518807585587e17"), (0xc380000000000000, "-1.4411518807585587e17"), (0x3c60000000000000, "6.938893903907228e-18"), (0xbc60000000000000, "-6.938893903907228e-18"), (0x43b0000000000000, "1.152921504606847e18"), (0xc3b0000000000000, "-1.152921504606847e18"), (0x3c30000000000000, "8.673617379884035e-19"), (0xbc30000000000000, "-8.673617379884035e-19"), (0x43e0000000000000, "9.223372036854776e18"), (0xc3e0000000000000, "-9.223372036854776e18"), (0x3c00000000000000, "1.0842021724855044e-19"), (0xbc00000000000000, "-1.0842021724855044e-19"), (0x4410000000000000, "7.378697629483821e19"), (0xc410000000000000, "-7.378697629483821e19"), (0x3bd0000000000000, "1.3552527156068805e-20"), (0xbbd0000000000000, "-1.3552527156068805e-20"), (0x4440000000000000, "5.902958103587057e20"), (0xc440000000000000, "-5.902958103587057e20"), (0x3ba0000000000000, "1.6940658945086007e-21"), (0xbba0000000000000, "-1.6940658945086007e-21"), (0x4000000000000000, "2.0"), (0xc000000000000000, "-2.0"), (0x4008000000000000, "3.0"), (0xc008000000000000, "-3.0"), (0x4010000000000000, "4.0"), (0xc010000000000000, "-4.0"), (0x4014000000000000, "5.0"), (0xc014000000000000, "-5.0"), (0x4018000000000000, "6.0"), (0xc018000000000000, "-6.0"), (0x4022000000000000, "9.0"), (0xc022000000000000, "-9.0"), (0x4026000000000000, "11.0"), (0xc026000000000000, "-11.0"), (0x4028000000000000, "12.0"), (0xc028000000000000, "-12.0"), (0x402a000000000000, "13.0"), (0xc02a000000000000, "-13.0"), (0x402c000000000000, "14.0"), (0xc02c000000000000, "-14.0"), (0x402e000000000000, "15.0"), (0xc02e000000000000, "-15.0"), (0x4030000000000000, "16.0"), (0xc030000000000000, "-16.0"), (0x4031000000000000, "17.0"), (0xc031000000000000, "-17.0"), (0x4032000000000000, "18.0"), (0xc032000000000000, "-18.0"), (0x4033000000000000, "19.0"), (0xc033000000000000, "-19.0"), (0x4034000000000000, "20.0"), (0xc034000000000000, "-20.0"), (0x4045000000000000, "42.0"), (0xc045000000000000, "-42.0"), (0x4058c00000000000, "99.0"), (0xc058c00000000000, "-99.0"), (0x4059400000000000, "101.0"), (0xc059400000000000, "-101.0"), (0x405fc00000000000, "127.0"), (0xc05fc00000000000, "-127.0"), (0x4060000000000000, "128.0"), (0xc060000000000000, "-128.0"), (0x406fe00000000000, "255.0"), (0xc06fe00000000000, "-255.0"), (0x4070000000000000, "256.0"), (0xc070000000000000, "-256.0"), (0x408f380000000000, "999.0"), (0xc08f380000000000, "-999.0"), (0x408f480000000000, "1001.0"), (0xc08f480000000000, "-1001.0"), (0x40c3878000000000, "9999.0"), (0xc0c3878000000000, "-9999.0"), (0x40efffe000000000, "65535.0"), (0xc0efffe000000000, "-65535.0"), (0x40f0000000000000, "65536.0"), (0xc0f0000000000000, "-65536.0"), (0x40f869f000000000, "99999.0"), (0xc0f869f000000000, "-99999.0"), (0x4170000010000000, "16777217.0"), (0xc170000010000000, "-16777217.0"), (0x41dfffffffc00000, "2147483647.0"), (0xc1dfffffffc00000, "-2147483647.0"), (0x41e0000000000000, "2147483648.0"), (0xc1e0000000000000, "-2147483648.0"), (0x41efffffffe00000, "4294967295.0"), (0xc1efffffffe00000, "-4294967295.0"), (0x41f0000000000000, "4294967296.0"), (0xc1f0000000000000, "-4294967296.0"), (0x42dc12218377de40, "123456789012345.0"), (0xc2dc12218377de40, "-123456789012345.0"), (0x43118b54f22aeb00, "1234567890123456.0"), (0xc3118b54f22aeb00, "-1234567890123456.0"), (0xc0527f0ee62c8e70, "-73.98528436995707"), (0x40527f0ee62c8e70, "73.98528436995707"), (0xc06fac0950e6ecb8, "-253.3761372099159"), (0x406fac0950e6ecb8, "253.3761372099159"), (0xc086975e90fbb5ca, "-722.9211749710896"), (0x4086975e90fbb5ca, "722.9211749710896"), (0x4086e8fd56694982, "733.1236999726827"), (0xc086e8fd56694982, "-733.1236999726827"), (0xc08ed90a04bb5958, "-987.1298918377533"), (0x408ed90a04bb5958, "987.1298918377533"), (0x401641b32fb8b600, "5.564160104416715"), (0xc01641b32fb8b600, "-5.564160104416715"), (0x4088e4c47c3965cc, "796.5959400638762"), (0xc088e4c47c3965cc, "-796.5959400638762"), (0xc08a32f73483f3b7, "-838.370705633998"), (0x408a32f73483f3b7, "838.370705633998"), (0x405b229eb3862c70, "108.54093635657205"), (0xc05b229eb3862c70, "-108.54093635657205"), (0x406d299a4ca0c950, "233.300085367237"), (0xc06d299a4ca0c950, "-233.300085367237"), (0xc08cb1aaf1cf9d95, "-918.2084690303769"), (0x408cb1aaf1cf9d95, "918.2084690303769"), (0xc06e3ebecd34afbc, "-241.96079120912862"), (0x406e3ebecd34afbc, "241.96079120912862"), (0x40796f5f5fa8dc9c, "406.9607845874941"), (0xc0796f5f5fa8dc9c, "-406.9607845874941"), (0xc057fd527a8ba930, "-95.95815909994849"), (0x4057fd527a8ba930, "95.95815909994849"), (0x407c22177fda58c4, "450.1307371644182"), (0xc07c22177fda58c4, "-450.1307371644182"), (0xc0856d7c441f24e0, "-685.6856768067482"), (0x40856d7c441f24e0, "685.6856768067482"), (0xc0805fce04c954fb, "-523.9755950669345"), (0x40805fce04c954fb, "523.9755950669345"), (0xc08850d6ece7261d, "-778.1049440439707"), (0x408850d6ece7261d, "778.1049440439707"), (0x4029138247dcda40, "12.538103337964571"), (0xc029138247dcda40, "-12.538103337964571"), (0x408a7d46ce1df798, "847.6595728245911"), (0xc08a7d46ce1df798, "-847.6595728245911"), (0x40669b6bd77a9ed8, "180.85691427182496"), (0xc0669b6bd77a9ed8, "-180.85691427182496"), (0x40812359fa50e1a8, "548.4189344710221"), (0xc0812359fa50e1a8, "-548.4189344710221"), (0xc06d15732e933d94, "-232.67031029470365"), (0x406d15732e933d94, "232.67031029470365"), (0x407ec30c045d0e48, "492.1904338488571"), (0xc07ec30c045d0e48, "-492.1904338488571"), (0xc088e549fbd216d4, "-796.6611248410431"), (0x4088e549fbd216d4, "796.6611248410431"), (0xc044e147ae147ae1, "-41.76"), (0x4044e147ae147ae1, "41.76"), (0x40416ccccccccccd, "34.85"), (0xc0416ccccccccccd, "-34.85"), (0x404691eb851eb852, "45.14"), (0xc04691eb851eb852, "-45.14"), (0xc02f4ccccccccccd, "-15.65"), (0x402f4ccccccccccd, "15.65"), (0xc0549d70a3d70a3d, "-82.46"), (0x40549d70a3d70a3d, "82.46"), (0xc047533333333333, "-46.65"), (0x4047533333333333, "46.65"), (0xc04d028f5c28f5c3, "-58.02"), (0x404d028f5c28f5c3, "58.02"), (0xc045e147ae147ae1, "-43.76"), (0x4045e147ae147ae1, "43.76"), (0x404ef33333333333, "61.9"), (0xc04ef33333333333, "-61.9"), (0xc04e0ccccccccccd, "-60.1"), (0x404e0ccccccccccd, "60.1"), (0x405351eb851eb852, "77.28"), (0xc05351eb851eb852, "-77.28"), (0x4052f7ae147ae148, "75.87"), (0xc052f7ae147ae148, "-75.87"), (0xc056428f5c28f5c3, "-89.04"), (0x4056428f5c28f5c3, "89.04"), (0xc0383d70a3d70a3d, "-24.24"), (0x40383d70a3d70a3d, "24.24"), (0xbffa8f5c28f5c28f, "-1.66"), (0x3ffa8f5c28f5c28f, "1.66"), (0xc057d33333333333, "-95.3"), (0x4057d33333333333, "95.3"), (0xc02e19999999999a, "-15.05"), (0x402e19999999999a, "15.05"), (0x405451eb851eb852, "81.28"), (0xc05451eb851eb852, "-81.28"), (0xc05365c28f5c28f6, "-77.59"), (0x405365c28f5c28f6, "77.59"), (0x40335eb851eb851f, "19.37"), (0xc0335eb851eb851f, "-19.37"), (0xc052f00000000000, "-75.75"), (0x4052f00000000000, "75.75"), (0x402f7ae147ae147b, "15.74"), (0xc02f7ae147ae147b, "-15.74"), (0x4053c3d70a3d70a4, "79.06"), (0xc053c3d70a3d70a4, "-79.06"), (0xc04db1eb851eb852, "-59.39"), (0x404db1eb851eb852, "59.39"), (0xc058966666666666, "-98.35"), (0x4058966666666666, "98.35"), (0x4601af9ae65992b9, "1.751532377292592e29"), (0xc601af9ae65992b9, "-1.751532377292592e29"), (0x451ea29ba007d9f7, "9.258917183855052e24"), (0xc51ea29ba007d9f7, "-9.258917183855052e24"), (0x44c2ac0e1a0238d2, "1.763529055988813e23"), (0xc4c2ac0e1a0238d2, "-1.763529055988813e23"), (0x3cfa4b16b3ef77e1, "5.838288778724797e-15"), (0xbcfa4b16b3ef77e1, "-5.838288778724797e-15"), (0x4226435b490af2d1, "47809668229.47425"), (0xc226435b490af2d1, "-47809668229.47425"), (0x3a014cd5d0c3c22e, "2.7294804360602627e-29"), (0xba014cd5d0c3c22e, "-2.7294804360602627e-29"), (0x3b8b9b814a84d425, "7.307628938691328e-22"), (0xbb8b9b814a84d425, "-7.307628938691328e-22"), (0x47b334e4928d6cc7, "2.5529967357027462e37"), (0xc7b334e4928d6cc7, "-2.5529967357027462e37"), (0x38d8d87cda31bc16, "7.476717364973822e-35"), (0xb8d8d87cda31bc16, "-7.476717364973822e-35"), (0x46677833c7bfa2c0, "1.4875588300075417e31"), (0xc6677833c7bfa2c0, "-1.4875588300075417e31"), (0x3bc0e1520255f428, "7.149024825225973e-21"), (0xbbc0e1520255f428, "-7.149024825225973e-21"), (0x46f7bf3c84a072b1, "7.706347669771275e33"), (0xc6f7bf3c84a072b1, "-7.706347669771275e33"), (0x3af34eb010e9efe6, "9.981678436012145e-25"), (0xbaf34eb010e9efe6, "-9.981678436012145e-25"), (0x4269a9e0af162b80, "881794054321.3594"), (0xc269a9e0af162b80, "-881794054321.3594"), (0x3e106bc97acff5a0, "9.558305078411686e-10"), (0xbe106bc97acff5a0, "-9.558305078411686e-10"), (0x4500400baa7c9458, "2.4556574709724405e24"), (0xc500400baa7c9458, "-2.4556574709724405e24"), (0x41352b0cb2e65b2c, "1387276.6988274558"), (0xc1352b0cb2e65b2c, "-1387276.6988274558"), (0x45864246d8db2ced, "8.61099235763492e26"), (0xc5864246d8db2ced, "-8.61099235763492e26"), (0x3a14012bef82e5c0, "6.312331379108748e-29"), (0xba14012bef82e5c0, "-6.312331379108748e-29"), (0x3abb41199dcdd589, "8.806338355874891e-26"), (0xbabb41199dcdd589, "-8.806338355874891e-26"), (0x4730e70fe430bf24, "8.77632453989518e34"), (0xc730e70fe430bf24, "-8.77632453989518e34"), (0x3d2826b54661a440, "4.290115558070689e-14"), (0xbd2826b54661a440, "-4.290115558070689e-14"), (0x46ec785667e3df1f, "4.619532717682045e33"), (0xc6ec785667e3df1f, "-4.619532717682045e33"), (0x41c6fb401106fa51, "771129378.054514"), (0xc1c6fb401106fa51, "-771129378.054514"), (0x40899b7683b6f8da, "819.4328684134191"), (0xc0899b7683b6f8da, "-819.4328684134191"), (0x8577eb1924770d3, "1.7789241144760088e-268"), (0x7b89296c6dcbac50, "1.1973132167542844e287"), (0x3cc0f2793fdcab8, "2.2494142465967565e-290"), (0x766bad0734c2da80, "2.723377564663307e262"), (0x7dc59a3ad035d259, "7.063971478498519e297"), (0x470b9805d2d6b877, "1.7909425354055159e34"), (0xcf84b683a749f9c5, "-1.171091472041008e75"), (0x8ceac392904cdef, "2.972668774468263e-266"), (0x7d763fb9854a9657, "2.273551385708611e296"), (0x137a977753e8eb43, "7.713804505104042e-215"), (0xf3d06f863fffc830, "-7.35466842215585e249"), (0xbedc25e6f3ebcf12, "-6.711019351557871e-6"), (0x5c74e45eff1e5bef, "2.4296270081658236e137"), (0x6b9f15c40b680c1c, "2.554866307109874e210"), (0x238123e5dc338383, "1.1514591564882656e-137"), (0x5ae6a2289a6ab329, "7.844378891785634e129"), (0x6bd7f50361b0ee09, "3.1504377897877757e211"), (0xd3ac535f489b340f, "-1.1817044842015649e95"), (0x432779eeacca7f0d, "3303995236237190.5"), (0x2cb7362c74f2e2ed, "2.7819333917140466e-93"), (0x4d984bffaf949e5e, "6.396897704583382e65"), (0x5cd2875ea96ec2b3, "1.3790659338205316e139"), (0x74f942cb220adb0a, "2.9632300379049787e255"), (0xdc2c2e2cc49104d0, "-1.0241292309628771e136"), (0x3d4806c2fb7f6f5d, "1.7071793007172246e-13"), (0x708cc1b6f829d29f, "1.4286494124542945e234"), (0x600fecc19d02fc90, "5.3505247439560644e154"), (0x953b00b00b54aa22, "-2.1026643576591284e-206"), (0x3c53d0e30109c207, "4.2969022018873556e-18"), (0x31e875ba224c0601, "2.8352095484237455e-68"), (0xe8dac663f0e58650, "-1.250909965803569e197"), (0x894deab44d88450f, "-7.42248191987085e-264"), (0xc5a56d7e5dbbb7ce, "-3.315777433918394e27"), (0x3d7c95f9e5f0307e, "1.6249171263702734e-12"), (0xaaac3142507a2560, "-3.9335422911123075e-103"), (0x735c076b8c8a18b2, "4.8994104193916666e247"), (0x785036de6f9fb997, "3.4263770850660045e271"), (0xa7298c6610a37558, "-4.946932635184144e-120"), (0x531ec56c95a4d257, "2.5072806892928155e92"), (0x807da245d814d575, "-2.6375027115554044e-306"), (0x7ff0000000000000, "inf"), (0xfff0000000000000, "-inf"), (0x7ff8000000000000, "NaN"), (0xfff8000000000000, "NaN"), (0x7ff0000000000001, "NaN"), (0x7fffffffffffffff, "NaN")];
#[no_mangle] pub fn h_f64_list() { for (i, &(x, s)) in F64.iter().enumerate() { if i % 16 != p(2) { continue; } let b = start(p(0), p(1)); lit(s); finish(b, f64::from_bits(x)); spec_reset(); } }
pub static F32: &[(u32, &str)] = &[(0x0, "0.0"), (0x80000000, "-0.0"), (0x3dcccccd, "0.1"), (0xbdcccccd, "-0.1"), (0x3e4ccccd, "0.2"), (0xbe4ccccd, "-0.2"), (0x3e99999a, "0.3"), (0xbe99999a, "-0.3"), (0x3f000000, "0.5"), (0xbf000000, "-0.5"), (0x3fc00000, "1.5"), (0xbfc00000, "-1.5"), (0x40200000, "2.5"), (0xc0200000, "-2.5"), (0x40600000, "3.5"), (0xc0600000, "-3.5"), (0x3f400000, "0.75"), (0xbf400000, "-0.75"), (0x3fa00000, "1.25"), (0xbfa00000, "-1.25"), (0x42c7fae1, "99.99"), (0xc2c7fae1, "-99.99"), (0x42c90000, "100.5"), (0xc2c90000, "-100.5"), (0x42f6e979, "123.456"), (0xc2f6e979, "-123.456"), (0x3a83126f, "0.001"), (0xba83126f, "-0.001"), (0x4640e6b6, "12345.678"), (0xc640e6b6, "-12345.678"), (0x40490fdb, "3.1415927"), (0xc0490fdb, "-3.1415927"), (0x402df854, "2.7182817"), (0xc02df854, "-2.7182817"), (0x5a000000, "9.007199e15"), (0xda000000, "-9.007199e15"), (0x3f4ccccd, "0.8"), (0xbf4ccccd, "-0.8"), (0x2b8cbccc, "1e-12"), (0xab8cbccc, "-1e-12"), (0x2badbd8d, "1.2345e-12"), (0xabadbd8d, "-1.2345e-12"), (0x2d2febff, "1e-11"), (0xad2febff, "-1e-11"), (0x2d592cf0, "1.2345e-11"), (0xad592cf0, "-1.2345e-11"), (0x2edbe6ff, "1e-10"), (0xaedbe6ff, "-1e-10"), (0x2f07bc16, "1.2345e-10"), (0xaf07bc16, "-1.2345e-10"), (0x3089705f, "1e-9"), (0xb089705f, "-1e-9"), (0x30a9ab1b, "1.2345e-9"), (0xb0a9ab1b, "-1.2345e-9"), (0x322bcc77, "1e-8"), (0xb22bcc77, "-1e-8"), (0x325415e2, "1.2345e-8"), (0xb25415e2, "-1.2345e-8"), (0x33d6bf95, "1e-7"), (0xb3d6bf95, "-1e-7"), (0x34048dad, "1.2345e-7"), (0xb4048dad, "-1.2345e-7"), (0x358637bd, "0.000001"), (0xb58637bd, "-0.000001"), (0x35a5b119, "0.0000012345"), (0xb5a5b119, "-0.0000012345"), (0x3727c5ac, "0.00001"), (0xb727c5ac, "-0.00001"), (0x374f1d5f, "0.000012345"), (0xb74f1d5f, "-0.000012345"), (0x38d1b717, "0.0001"), (0xb8d1b717, "-0.0001"), (0x3901725b, "0.00012345"), (0xb901725b, "-0.00012345"), (0x3aa1cef2, "0.0012345"), (0xbaa1cef2, "-0.0012345"), (0x3c23d70a, "0.01"), (0xbc23d70a, "-0.01"), (0x3c4a42af, "0.012345"), (0xbc4a42af, "-0.012345"), (0x3dfcd35b, "0.12345"), (0xbdfcd35b, "-0.12345"), (0x3f800000, "1.0"), (0xbf800000, "-1.0"), (0x3f9e0419, "1.2345"), (0xbf9e0419, "-1.2345"), (0x41200000, "10.0"), (0xc1200000, "-10.0"), (0x4145851f, "12.345"), (0xc145851f, "-12.345"), (0x42c80000, "100.0"), (0xc2c80000, "-100.0"), (0x42f6e666, "123.45"), (0xc2f6e666, "-123.45"), (0x447a0000, "1000.0"), (0xc47a0000, "-1000.0"), (0x449a5000, "1234.5"), (0xc49a5000, "-1234.5"), (0x461c4000, "10000.0"), (0xc61c4000, "-10000.0"), (0x4640e400, "12345.0"), (0xc640e400, "-12345.0"), (0x47c35000, "100000.0"), (0xc7c35000, "-100000.0"), (0x47f11d00, "123450.0"), (0xc7f11d00, "-123450.0"), (0x49742400, "1000000.0"), (0xc9742400, "-1000000.0"), (0x4996b220, "1234500.0"), (0xc996b220, "-1234500.0"), (0x4b189680, "10000000.0"), (0xcb189680, "-10000000.0"), (0x4b3c5ea8, "12345000.0"), (0xcb3c5ea8, "-12345000.0"), (0x4cbebc20, "100000000.0"), (0xccbebc20, "-100000000.0"), (0x4ceb7652, "123450000.0"), (0xcceb7652, "-123450000.0"), (0x4e6e6b28, "1000000000.0"), (0xce6e6b28, "-1000000000.0"), (0x4e9329f3, "1234500000.0"), (0xce9329f3, "-1234500000.0"), (0x501502f9, "10000000000.0"), (0xd01502f9, "-10000000000.0"), (0x5037f470, "12345000000.0"), (0xd037f470, "-12345000000.0"), (0x51ba43b7, "100000000000.0"), (0xd1ba43b7, "-100000000000.0"), (0x51e5f18c, "123450000000.0"), (0xd1e5f18c, "-123450000000.0"), (0x5368d4a5, "1000000000000.0"), (0xd368d4a5, "-1000000000000.0"), (0x538fb6f8, "1234500000000.0"), (0xd38fb6f8, "-1234500000000.0"), (0x551184e7, "1e13"), (0xd51184e7, "-1e13"), (0x5533a4b5, "1.2345e13"), (0xd533a4b5, "-1.2345e13"), (0x56b5e621, "1e14"), (0xd6b5e621, "-1e14"), (0x56e08de3, "1.2345e14"), (0xd6e08de3, "-1.2345e14"), (0x58635fa9, "1e15"), (0xd8635fa9, "-1e15"), (0x588c58ae, "1.2345e15"), (0xd88c58ae, "-1.2345e15"), (0x5a0e1bca, "1e16"), (0xda0e1bca, "-1e16"), (0x5a2f6ed9, "1.2345e16"), (0xda2f6ed9, "-1.2345e16"), (0x5bb1a2bc, "1e17"), (0xdbb1a2bc, "-1e17"), (0x5bdb4a8f, "1.2345e17"), (0xdbdb4a8f, "-1.2345e17"), (0x5d5e0b6b, "1e18"), (0xdd5e0b6b, "-1e18"), (0x5d890e9a, "1.2345e18"), (0xdd890e9a, "-1.2345e18"), (0x5f0ac723, "1e19"), (0xdf0ac723, "-1e19"), (0x5f2b5240, "1.2345e19"), (0xdf2b5240, "-1.2345e19"), (0x60ad78ec, "1e20"), (0xe0ad78ec, "-1e20"), (0x60d626d0, "1.2345e20"), (0xe0d626d0, "-1.2345e20"), (0x6258d727, "1e21"), (0xe258d727, "-1e21"), (0x6285d842, "1.2345e21"), (0xe285d842, "-1.2345e21"), (0x64078678, "1e22"), (0xe4078678, "-1e22"), (0x64274e53, "1.2345e22"), (0xe4274e53, "-1.2345e22"), (0x65a96816, "1e23"), (0xe5a96816, "-1e23"), (0x65d121e7, "1.2345e23"), (0xe5d121e7, "-1.2345e23"), (0x6753c21c, "1e24"), (0xe753c21c, "-1e24"), (0x6782b531, "1.2345e24"), (0xe782b531, "-1.2345e24"), (0x69045951, "1e25"), (0xe9045951, "-1e25"), (0x7149f2ca, "1e30"), (0xf149f2ca, "-1e30"), (0x71794e27, "1.2345e30"), (0xf1794e27, "-1.2345e30"), (0x72fc6f7c, "1e31"), (0xf2fc6f7c, "-1e31"), (0x7e967699, "1e38"), (0xfe967699, "-1e38"), (0x7eb9bf36, "1.2345e38"), (0xfeb9bf36, "-1.2345e38"), (0x1e3ce508, "1e-20"), (0x9e3ce508, "-1e-20"), (0x1e6930c2, "1.2345e-20"), (0x9e6930c2, "-1.2345e-20"), (0x1fec1e4a, "1e-19"), (0x9fec1e4a, "-1e-19"), (0x6ce3ee, "1e-38"), (0x806ce3ee, "-1e-38"), (0x866cd6, "1.2345e-38"), (0x80866cd6, "-1.2345e-38"), (0x2081cea, "1e-37"), (0x82081cea, "-1e-37"), (0x1, "1e-45"), (0x80000001, "-1e-45"), (0x7, "1e-44"), (0x80000007, "-1e-44"), (0x41000000, "8.0"), (0xc1000000, "-8.0"), (0x40e00000, "7.0"), (0xc0e00000, "-7.0"), (0x41080000, "8.5"), (0xc1080000, "-8.5"), (0x3e000000, "0.125"), (0xbe000000, "-0.125"), (0x42800000, "64.0"), (0xc2800000, "-64.0"), (0x427c0000, "63.0"), (0xc27c0000, "-63.0"), (0x42810000, "64.5"), (0xc2810000, "-64.5"), (0x3c800000, "0.015625"), (0xbc800000, "-0.015625"), (0x44000000, "512.0"), (0xc4000000, "-512.0"), (0x43ff8000, "511.0"), (0xc3ff8000, "-511.0"), (0x44002000, "512.5"), (0xc4002000, "-512.5"), (0x3b000000, "0.001953125"), (0xbb000000, "-0.001953125"), (0x45800000, "4096.0"), (0xc5800000, "-4096.0"), (0x457ff000, "4095.0"), (0xc57ff000, "-4095.0"), (0x45800400, "4096.5"), (0xc5800400, "-4096.5"), (0x39800000, "0.00024414062"), (0xb9800000, "-0.00024414062"), (0x47000000, "32768.0"), (0xc7000000, "-32768.0"), (0x46fffe00, "32767.0"), (0xc6fffe00, "-32767.0"), (0x47000080, "32768.5"), (0xc7000080, "-32768.5"), (0x38000000, "0.000030517578"), (0xb8000000, "-0.000030517578"), (0x48800000, "262144.0"), (0xc8800000, "-262144.0"), (0x487fffc0, "262143.0"), (0xc87fffc0, "-262143.0"), (0x48800010, "262144.5"), (0xc8800010, "-262144.5"), (0x36800000, "0.0000038146973"), (0xb6800000, "-0.0000038146973"), (0x4a000000, "2097152.0"), (0xca000000, "-2097152.0"), (0x49fffff8, "2097151.0"), (0xc9fffff8, "-2097151.0"), (0x4a000002, "2097152.5"), (0xca000002, "-2097152.5"), (0x35000000, "4.7683716e-7"), (0xb5000000, "-4.7683716e-7"), (0x4b800000, "16777216.0"), (0xcb800000, "-16777216.0"), (0x4b7fffff, "16777215.0"), (0xcb7fffff, "-16777215.0"), (0x33800000, "5.9604645e-8"), (0xb3800000, "-5.9604645e-8"), (0x4d000000, "134217730.0"), (0xcd000000, "-134217730.0"), (0x32000000, "7.450581e-9"), (0xb2000000, "-7.450581e-9"), (0x4e800000, "1073741800.0"), (0xce800000, "-1073741800.0"), (0x30800000, "9.313226e-10"), (0xb0800000, "-9.313226e-10"), (0x50000000, "8589935000.0"), (0xd0000000, "-8589935000.0"), (0x2f000000, "1.1641532e-10"), (0xaf000000, "-1.1641532e-10"), (0x51800000, "68719480000.0"), (0xd1800000, "-68719480000.0"), (0x2d800000, "1.4551915e-11"), (0xad800000, "-1.4551915e-11"), (0x53000000, "549755800000.0"), (0xd3000000, "-549755800000.0"), (0x2c000000, "1.8189894e-12"), (0xac000000, "-1.8189894e-12"), (0x54800000, "4398046500000.0"), (0xd4800000, "-4398046500000.0"), (0x2a800000, "2.2737368e-13"), (0xaa800000, "-2.2737368e-13"), (0x56000000, "3.5184372e13"), (0xd6000000, "-3.5184372e13"), (0x29000000, "2.842171e-14"), (0xa9000000, "-2.842171e-14"), (0x57800000, "2.8147498e14"), (0xd7800000, "-2.8147498e14"), (0x27800000, "3.5527137e-15"), (0xa7800000, "-3.5527137e-15"), (0x59000000, "2.2517998e15"), (0xd9000000, "-2.2517998e15"), (0x26000000, "4.440892e-16"), (0xa6000000, "-4.440892e-16"), (0x5a800000, "1.8014399e16"), (0xda800000, "-1.8014399e16"), (0x24800000, "5.551115e-17"), (0xa4800000, "-5.551115e-17"), (0x5c000000, "1.4411519e17"), (0xdc000000, "-1.4411519e17"), (0x23000000, "6.938894e-18"), (0xa3000000, "-6.938894e-18"), (0x5d800000, "1.1529215e18"), (0xdd800000, "-1.1529215e18"), (0x21800000, "8.6736174e-19"), (0xa1800000, "-8.6736174e-19"), (0x5f000000, "9.223372e18"), (0xdf000000, "-9.223372e18"), (0x20000000, "1.0842022e-19"), (0xa0000000, "-1.0842022e-19"), (0x60800000, "7.378698e19"), (0xe0800000, "-7.378698e19"), (0x1e800000, "1.3552527e-20"), (0x9e800000, "-1.3552527e-20"), (0x62000000, "5.902958e20"), (0xe2000000, "-5.902958e20"), (0x1d000000, "1.6940659e-21"), (0x9d000000, "-1.6940659e-21"), (0x40000000, "2.0"), (0xc0000000, "-2.0"), (0x40400000, "3.0"), (0xc0400000, "-3.0"), (0x40800000, "4.0"), (0xc0800000, "-4.0"), (0x40a00000, "5.0"), (0xc0a00000, "-5.0"), (0x40c00000, "6.0"), (0xc0c00000, "-6.0"), (0x41100000, "9.0"), (0xc1100000, "-9.0"), (0x41300000, "11.0"), (0xc1300000, "-11.0"), (0x41400000, "12.0"), (0xc1400000, "-12.0"), (0x41500000, "13.0"), (0xc1500000, "-13.0"), (0x41600000, "14.0"), (0xc1600000, "-14.0"), (0x41700000, "15.0"), (0xc1700000, "-15.0"), (0x41800000, "16.0"), (0xc1800000, "-16.0"), (0x41880000, "17.0"), (0xc1880000, "-17.0"), (0x41900000, "18.0"), (0xc1900000, "-18.0"), (0x41980000, "19.0"), (0xc1980000, "-19.0"), (0x41a00000, "20.0"), (0xc1a00000, "-20.0"), (0x42280000, "42.0"), (0xc2280000, "-42.0"), (0x42c60000, "99.0"), (0xc2c60000, "-99.0"), (0x42ca0000, "101.0"), (0xc2ca0000, "-101.0"), (0x42fe0000, "127.0"), (0xc2fe0000, "-127.0"), (0x43000000, "128.0"), (0xc3000000, "-128.0"), (0x437f0000, "255.0"), (0xc37f0000, "-255.0"), (0x43800000, "256.0"), (0xc3800000, "-256.0"), (0x4479c000, "999.0"), (0xc479c000, "-999.0"), (0x447a4000, "1001.0"), (0xc47a4000, "-1001.0"), (0x461c3c00, "9999.0"), (0xc61c3c00, "-9999.0"), (0x477fff00, "65535.0"), (0xc77fff00, "-65535.0"), (0x47800000, "65536.0"), (0xc7800000, "-65536.0"), (0x47c34f80, "99999.0"), (0xc7c34f80, "-99999.0"), (0x4f000000, "2147483600.0"), (0xcf000000, "-2147483600.0"), (0x4f800000, "4294967300.0"), (0xcf800000, "-4294967300.0"), (0x56e0910c, "1.2345679e14"), (0xd6e0910c, "-1.2345679e14"), (0x588c5aa8, "1.234568e15"), (0xd88c5aa8, "-1.234568e15"), (0xc293f877, "-73.98528"), (0x4293f877, "73.98528"), (0xc37d604b, "-253.37614"), (0x437d604b, "253.37614"), (0xc434baf5, "-722.9212"), (0x4434baf5, "722.9212"), (0x443747eb, "733.1237"), (0xc43747eb, "-733.1237"), (0xc476c850, "-987.1299"), (0x4476c850, "987.1299"), (0x40b20d99, "5.56416"), (0xc0b20d99, "-5.56416"), (0x44472624, "796.59595"), (0xc4472624, "-796.59595"), (0xc45197ba, "-838.3707"), (0x445197ba, "838.3707"), (0x42d914f6, "108.54094"), (0xc2d914f6, "-108.54094"), (0x43694cd2, "233.30008"), (0xc3694cd2, "-233.30008"), (0xc4658d58, "-918.2085"), (0x44658d58, "918.2085"), (0xc371f5f6, "-241.96078"), (0x4371f5f6, "241.96078"), (0x43cb7afb, "406.9608"), (0xc3cb7afb, "-406.9608"), (0xc2bfea94, "-95.95816"), (0x42bfea94, "95.95816"), (0x43e110bc, "450.13074"), (0xc3e110bc, "-450.13074"), (0xc42b6be2, "-685.68567"), (0x442b6be2, "685.68567"), (0xc402fe70, "-523.9756"), (0x4402fe70, "523.9756"), (0xc44286b7, "-778.1049"), (0x444286b7, "778.1049"), (0x41489c12, "12.538103"), (0xc1489c12, "-12.538103"), (0x4453ea36, "847.65955"), (0xc453ea36, "-847.65955"), (0x4334db5f, "180.85692"), (0xc334db5f, "-180.85692"), (0x44091ad0, "548.41895"), (0xc4091ad0, "-548.41895"), (0xc368ab99, "-232.6703"), (0x4368ab99, "232.6703"), (0x43f61860, "492.19043"), (0xc3f61860, "-492.19043"), (0xc4472a50, "-796.66113"), (0x44472a50, "796.66113"), (0xc2270a3d, "-41.76"), (0x42270a3d, "41.76"), (0x420b6666, "34.85"), (0xc20b6666, "-34.85"), (0x42348f5c, "45.14"), (0xc2348f5c, "-45.14"), (0xc17a6666, "-15.65"), (0x417a6666, "15.65"), (0xc2a4eb85, "-82.46"), (0x42a4eb85, "82.46"), (0xc23a999a, "-46.65"), (0x423a999a, "46.65"), (0xc268147b, "-58.02"), (0x4268147b, "58.02"), (0xc22f0a3d, "-43.76"), (0x422f0a3d, "43.76"), (0x4277999a, "61.9"), (0xc277999a, "-61.9"), (0xc2706666, "-60.1"), (0x42706666, "60.1"), (0x429a8f5c, "77.28"), (0xc29a8f5c, "-77.28"), (0x4297bd71, "75.87"), (0xc297bd71, "-75.87"), (0xc2b2147b, "-89.04"), (0x42b2147b, "89.04"), (0xc1c1eb85, "-24.24"), (0x41c1eb85, "24.24"), (0xbfd47ae1, "-1.66"), (0x3fd47ae1, "1.66"), (0xc2be999a, "-95.3"), (0x42be999a, "95.3"), (0xc170cccd, "-15.05"), (0x4170cccd, "15.05"), (0x42a28f5c, "81.28"), (0xc2a28f5c, "-81.28"), (0xc29b2e14, "-77.59"), (0x429b2e14, "77.59"), (0x419af5c3, "19.37"), (0xc19af5c3, "-19.37"), (0xc2978000, "-75.75"), (0x42978000, "75.75"), (0x417bd70a, "15.74"), (0xc17bd70a, "-15.74"), (0x429e1eb8, "79.06"), (0xc29e1eb8, "-79.06"), (0xc26d8f5c, "-59.39"), (0x426d8f5c, "59.39"), (0xc2c4b333, "-98.35"), (0x42c4b333, "98.35"), (0x700d7cd7, "1.7515323e29"), (0xf00d7cd7, "-1.7515323e29"), (0x68f514dd, "9.258917e24"), (0xe8f514dd, "-9.258917e24"), (0x66156071, "1.763529e23"), (0xe6156071, "-1.763529e23"), (0x27d258b6, "5.838289e-15"), (0xa7d258b6, "-5.838289e-15"), (0x51321ada, "47809667000.0"), (0xd1321ada, "-47809667000.0"), (0x100a66af, "2.7294806e-29"), (0x900a66af, "-2.7294806e-29"), (0x1c5cdc0a, "7.307629e-22"), (0x9c5cdc0a, "-7.307629e-22"), (0x7d99a725, "2.5529968e37"), (0xfd99a725, "-2.5529968e37"), (0x6c6c3e7, "7.4767175e-35"), (0x86c6c3e7, "-7.4767175e-35"), (0x733bc19e, "1.4875588e31"), (0xf33bc19e, "-1.4875588e31"), (0x1e070a90, "7.149025e-21"), (0x9e070a90, "-7.149025e-21"), (0x77bdf9e4, "7.7063476e33"), (0xf7bdf9e4, "-7.7063476e33"), (0x179a7581, "9.981679e-25"), (0x979a7581, "-9.981679e-25"), (0x534d4f05, "881794000000.0"), (0xd34d4f05, "-881794000000.0"), (0x30835e4c, "9.558305e-10"), (0xb0835e4c, "-9.558305e-10"), (0x6802005d, "2.4556574e24"), (0xe802005d, "-2.4556574e24"), (0x49a95866, "1387276.8"), (0xc9a95866, "-1387276.8"), (0x6c321237, "8.6109925e26"), (0xec321237, "-8.6109925e26"), (0x10a0095f, "6.312331e-29"), (0x90a0095f, "-6.312331e-29"), (0x15da08cd, "8.8063384e-26"), (0x95da08cd, "-8.8063384e-26"), (0x7987387f, "8.776324e34"), (0xf987387f, "-8.776324e34"), (0x294135aa, "4.2901155e-14"), (0xa94135aa, "-4.2901155e-14"), (0x7763c2b3, "4.6195326e33"), (0xf763c2b3, "-4.6195326e33"), (0x4e37da01, "771129400.0"), (0xce37da01, "-771129400.0"), (0x444cdbb4, "819.43286"), (0xc44cdbb4, "-819.43286"), (0x280b11fd, "7.719951e-15"), (0xd798c9cf, "-3.3598506e14"), (0x396ba83a, "0.00022474016"), (0xf843bdb8, "-1.5880404e34"), (0x69b1dcbf, "2.687779e25"), (0x3d061437, "0.032734122"), (0x973e89c, "2.9359433e-33"), (0x8208d09, "4.8314035e-34"), (0x7f216822, "2.145464e38"), (0x4d1919a0, "160537090.0"), (0xd167533a, "-62095860000.0"), (0x9b4f32af, "-1.7139015e-22"), (0xa86b8a6e, "-1.3075138e-14"), (0x1270dee2, "7.600537e-28"), (0x889263ce, "-8.810519e-34"), (0xec9cce6f, "-1.5165383e27"), (0xdae98554, "-3.2865133e16"), (0x14b91c79, "1.8691457e-26"), (0x2651f637, "7.2845125e-16"), (0x62694646, "1.0757888e21"), (0x9136580b, "-1.4384399e-28"), (0xf2108d61, "-2.8631525e30"), (0x5fc9eba4, "2.9099807e19"), (0xe9b7ea61, "-2.779253e25"), (0x99ef1857, "-2.4721852e-23"), (0x265039f6, "7.224305e-16"), (0x1ce80b12, "1.5355334e-21"), (0xf6bb5ea1, "-1.900154e33"), (0xc6880007, "-17408.014"), (0xc5ec6148, "-7564.16"), (0x18bb28e9, "4.8379676e-24"), (0x71097999, "6.807432e29"), (0x2a96d06a, "2.678997e-13"), (0xfb605ee6, "-1.1649993e36"), (0xceb506f6, "-1518566100.0"), (0x30e0888f, "1.6336957e-9"), (0xf29c11ad, "-6.182532e30"), (0x59432a19, "3.4333692e15"), (0x6ee84270, "3.594042e28"), (0xf871cfde, "-1.9618119e34"), (0x7f800000, "inf"), (0xff800000, "-inf"), (0x7fc00000, "NaN"), (0xffc00000, "NaN"), (0x7f800001, "NaN"), (0x7f7fffff, "3.4028235e38"), (0xff7fffff, "-3.4028235e38"), (0x7fffff, "1.1754942e-38"), (0x800000, "1.1754944e-38")];
#[no_mangle] pub fn h_f32_list() { for (i, &(x, s)) in F32.iter().enumerate() { if i % 16 != p(2) { continue; } let b = start(p(0), p(1)); lit(s); finish(b, f32::from_bits(x)); spec_reset(); } }
