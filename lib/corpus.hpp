// Valid frames that together use every construct of the grammar.
#ifndef VERIF_CORPUS_HPP
#define VERIF_CORPUS_HPP
#include <string>
#include <vector>
inline const std::vector<std::string>& corpus() {
    static const std::vector<std::string> c{
        "@1AbC+user :lww! 'key' >val;\n",
        "@1+A :rga! 'a', 'b' (3); :0;",
        "@1gABC+user :rga!\n@1gABC1+user 'a',\n'b',\n'c';\n.\n",
        "@1ABC+u :1ABB+v 12 -3 +4 =5 = 6 ^1.5 ^ -2e3 1E-7 3.25e+1 0.1,\n",
        "@A/x%h :B/y$n >1 >1e5 > 12+34 1/2 0/1 F/~~~~~~~~~~-~~~~~~~~~~;",
        "'\\n\\r\\t\\b\\\\\\'\\/\\\"\\u0041\\u00e9\\uFFFf' ''  'x';",
        "'\xd0\x96\xe2\x82\xac\xf0\x9f\x98\x80z' 'd';",
        "@1+A :0 ('a\\u0042\xd0\x96\\'') ,@2+B:1+A('\\n')!(2)?",
        "1, 2;abc!lww?-5;1.5, ;,!?\n.\n",
        "@00000000001+0 :0;",
        "@~ 'a comment';@1+A :yarn!@2+A :1+A 9223372036854775807 -9223372036854775808;",
        "@1+A :0 >x(12);@2+A\t:\n(  3 )\r;",
        "@1+A :0 'ab' 5 (2);\n\n",
        " \n @1 1 2 3 'a''b'=1>z^1.0 ( 2 ) ! .\n",
    };
    return c;
}
// the same set as accepted by the grammar only
#endif
