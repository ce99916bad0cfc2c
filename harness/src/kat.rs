//! Known answers of the Troika hash: 243 zeros; one zero; two zeros; 1 0..0 2 (243 trits).
pub const KAT: [&str; 4] = [
    "022121012111122111012121212122111010210001202100211111201021120111112200222200222122021121112211000222021111001020202000011102111020010102022002201210012110011021101200012211100201121121012222120221212122112021011102200202012002211201000020222",
    "002000202102220201001220111001110000100020222112211021100211012021011011012010120121020201011100221110202212001222102020210020002012200211220021202001200101020122120001011201010211200210021020000021001202001122002210221110021110000012122220002",
    "202002111110120011101221222120022111012201202121212010000010202021222010212121210210201112221111010002100121110001121212000222121202002210002220220222210022101211200111212102201120221102112020011102000021012211022211002112200212012211202212111",
    "120220121212020211012202221121212221211022112222201212001221011202211020020000200100012021222011211111202210102202211120102211222000002210202121001221010022001101021010000021221011220002100012221020010112001222020112100211020221121101101102212",
];
