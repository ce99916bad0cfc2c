//! Troika round constants, one 27-trit lane per (round, column), lowest slice first.
pub const RC: [[&str; 9]; 24] = [
    [
        "210200221020200211022100111",
        "210021202011112111121010020",
        "201220121220222011020021220",
        "222101100222120021222012012",
        "101002201202012020011100110",
        "211212100210012211101022022",
        "001222102022212102202202201",
        "110220221121100012000122120",
        "010111011121012001102210221",
    ],
    [
        "111110110000020002200200122",
        "102220101121212110201212011",
        "120012022002220100102212100",
        "011200000022221000222021122",
        "211220101010122112121120200",
        "202210002100111221010111101",
        "000000021020000210020102101",
        "211220011210121212022111211",
        "011110111201020011201220212",
    ],
    [
        "010002222210222200210120110",
        "210111022022012110000201012",
        "021102212211111100022000222",
        "221021011021000200100122002",
        "120021102202011111001121002",
        "221010201201222210000210211",
        "101120020000222000102221111",
        "101221002201201112020002112",
        "200220220210200000200201002",
    ],
    [
        "102100200220011000201210222",
        "202011112201121011222202202",
        "220112220012221111222122201",
        "000222100012222112122102200",
        "201202112020012102110221200",
        "202100010212012102021001202",
        "021222202102010102002111222",
        "110121100010110122101000120",
        "000011010010110020001002100",
    ],
    [
        "010120121211100011202222112",
        "110100002110202021111221221",
        "112001122112221210201120220",
        "100101012000012110210121011",
        "111110122110020120212101001",
        "220102010212122112022100202",
        "001121111121200200101120002",
        "122021200022022121220001021",
        "110011010102010021222110112",
    ],
    [
        "210202201010220021122101011",
        "201100000102022001022200120",
        "212221000220121122202010011",
        "002112200211101210112201122",
        "222222002210001102111211010",
        "101111022020102110011120112",
        "010222120112122010220102212",
        "021110200001221201012200101",
        "012210022002011120100121120",
    ],
    [
        "010122100021120112211020221",
        "212112201222001220211122220",
        "101110011200122012222222202",
        "021222212022010201100212212",
        "121001021112100201210211010",
        "011120222021121021021002000",
        "102121102200220111010202212",
        "112212010111001011012200100",
        "100210020101101101110000000",
    ],
    [
        "021122011001012220200112110",
        "212111010222022022121000001",
        "100000102012001022100220211",
        "021120001121022111202011221",
        "120011021102210101111112210",
        "000110010001102000211012012",
        "022220101102012110012101012",
        "012212002122001201202122000",
        "122200001221111012202202012",
    ],
    [
        "102120010220212202100220202",
        "022120010211012202011012201",
        "111200212001220121222222011",
        "211122100202110111022110012",
        "100011012202110012202112022",
        "111010001022020210210012200",
        "021222110122012210122202012",
        "012202110122202110121102110",
        "200001102211011011121000001",
    ],
    [
        "011200121122222210011000211",
        "120012222222222100000002112",
        "010001220020212221002220121",
        "111212021021011120000201122",
        "202102102102000000002010000",
        "001022211010212221022020121",
        "121101101120100000220102002",
        "110110110000000002200000022",
        "102120011010212210022020011",
    ],
    [
        "010222111022122222111001002",
        "000021102210211111110012000",
        "112212010211001012011200110",
        "102012210102102012220002102",
        "020110200201201200010000021",
        "010011012220010012111200021",
        "202122002002202100002002012",
        "011000220220222200000020111",
        "120010211122202012111101101",
    ],
    [
        "222200012200111122212110111",
        "022020210220012200101222212",
        "022222102122002100202101011",
        "111121000120102121200120221",
        "100200211121000112102121120",
        "021221210002000221220012210",
        "020000100110101000100212021",
        "000201212222010110101211000",
        "020200002222101022202122212",
    ],
    [
        "202010011211110012002022020",
        "011210201022020211210012210",
        "022022100110001110102211120",
        "122201012011121110021100222",
        "200220021100201011121011101",
        "021222011112011221012022101",
        "001121120101200020111021201",
        "211101222112201212201220110",
        "102201202201020010021220200",
    ],
    [
        "200200012100001121212011201",
        "021022011110010221022002111",
        "221122121012010022210010122",
        "111121222220101010012112120",
        "102201200011020021110120011",
        "210101121122210200011210201",
        "212102100112200010121211101",
        "220222201100020122022201022",
        "112020102122111120200220121",
    ],
    [
        "211022200101112112010110002",
        "010101122021210212022220021",
        "211001121221201201000100001",
        "021000112010121122011110012",
        "220102212122121102100020110",
        "112020212112112222000001101",
        "111202200101210012011121020",
        "002121210101221222211200010",
        "100202010121021111112001200",
    ],
    [
        "011002220120212212001220001",
        "102011011112120001010112110",
        "021002010200110112202100021",
        "221022022121010001022220210",
        "012201202022220011202011212",
        "110011000122010221222212110",
        "021102020011112210211011010",
        "220221102100012110012121012",
        "012222021122101021010122200",
    ],
    [
        "222221112210022211011122221",
        "121020010112020201022112111",
        "202012212111102002020212000",
        "212010200021012201210212220",
        "211122010022112210121201012",
        "010202012002221100202222121",
        "011000020010220200202100100",
        "021122210121011212112202012",
        "221121110212000221021212211",
    ],
    [
        "001111021101102101100010020",
        "211200021000221210122210222",
        "212221212120120212110001222",
        "120020112002001222200022210",
        "111101111020200102122102020",
        "020202022022121200001021121",
        "022010002220210222210200120",
        "001201100222002021221100222",
        "002210021212111112212020011",
    ],
    [
        "022100100021110002211222222",
        "121210122021222122022012002",
        "012212211202000020211010202",
        "111222212011110201021021211",
        "200102212102021102202221111",
        "010201002222211012200221012",
        "210202201200220020020201000",
        "002121221101221002101201111",
        "001110210201121000212202122",
    ],
    [
        "120110002010202220112220212",
        "000200200012000001120210011",
        "211022220121112012010212000",
        "200002200221022010211010212",
        "000222202222220100200012101",
        "210211212010010011010000010",
        "002111020021122120011010012",
        "021002102100111000010112220",
        "120202200011120011111122211",
    ],
    [
        "221110220122221102021022112",
        "221201012100101111210010101",
        "012021210120122222100021002",
        "011022021020110020021202100",
        "001121222001201011122001101",
        "020200100102102000020002010",
        "210020022011100020221222202",
        "101021112112201210001220121",
        "000111221221111100002200222",
    ],
    [
        "220011201111212202101010202",
        "021001212200102110212020111",
        "112210111101012010202110012",
        "012112012121002001122110021",
        "112121000110122121100120020",
        "200120112202200221200010210",
        "010010101110001210122212122",
        "212222011210101222022211211",
        "022010221000212111122122020",
    ],
    [
        "022122221201001020101000221",
        "021111212101201012221001112",
        "222112022102202101101002020",
        "210212112220022001111020121",
        "120202001001121020001202020",
        "121102002110112001110022221",
        "121202100021112012211212002",
        "002220001212211112110022010",
        "110002011202220122210212021",
    ],
    [
        "112022212212102200002201011",
        "121101110120100120100100200",
        "002010210120112002100222201",
        "102121010110222221001120021",
        "112011211222022000111000111",
        "122122022010002000210220012",
        "020011200210212220100020112",
        "012120210021111201111201202",
        "210021122221111011022202000",
    ],
];
