// Documents for the messages of common_schemas.doc_schema(): 0 Doc, 1 All, 2 Deep, 3 None.
#ifndef DOCSET_HH
#define DOCSET_HH
#include <cctype>
#include <sstream>
#include <string>
#include <vector>
static bool wordy(char c) { return isalnum((unsigned char) c) || c == '.' || c == '+' || c == '-' || c == '_'; }
// joins tokens in a layout
static std::string join(const std::vector<std::string> &t, int layout)
{
    static const char *SEP[][3] = { { "", "", "" }, { "\n", "\n ", "\n\n" }, { "\r\n\t", " ", "\r\n" }, { " ", "\t", "  " } };
    std::string o;
    for (size_t k = 0; k < t.size(); ++k) {
        if (layout == 0) { if (!o.empty() && !t[k].empty() && wordy(o.back()) && wordy(t[k][0])) o += ' '; }
        else o += SEP[layout][k % 3];
        o += t[k];
    }
    return o;
}

static std::vector<std::string> split(const std::string &s) { std::vector<std::string> o; std::istringstream i(s); std::string w; while (i >> w) { for (auto &c : w) if (c == '~') c = ' '; o.push_back(w); } return o; }

// documents that exercise every field kind (tokens separated by spaces)
static std::vector<std::pair<int, std::vector<std::string>>> corpus()
{
    std::vector<std::pair<int, std::vector<std::string>>> c;
    for (auto s : { "{ }", "{ \"i\" : 1 }", "{ \"s\" : \"x\" , \"i\" : -2 }", "{ \"l\" : [ 1 , 2 , null , 3 ] , \"b\" : true }", "{ \"m\" : { \"n\" : 1 , \"t\" : \"q\" } , \"r\" : [ { } , { \"n\" : 2 } , null ] }",
        "{ \"y\" : \"QUI=\" , \"d\" : 1.5e2 , \"zz\" : { \"a\" : [ 1 , { \"b\" : null } , \"]\" ] } , \"s\" : \"a\\n\" }", "{ \"ls\" : [ \"a\" , \"b\" ] , \"zz\" : [ [ ] , [ [ ] ] , { } ] , \"h\" : \"hidden\" , \"i\" : 7 }",
        "{ \"i\" : null , \"s\" : null , \"l\" : null , \"m\" : null , \"r\" : null , \"y\" : null , \"d\" : null , \"b\" : null , \"ls\" : null }",
        "{ \"ly\" : [ \"QQ==\" , \"\" , \"QUJD\" ] , \"m\" : { \"zz\" : true , \"n\" : 5 , \"yy\" : [ 1 ] } , \"r\" : [ { \"zz\" : { \"n\" : 9 } , \"t\" : \"u\" } ] }" })
        c.push_back({ 0, split(s) });
    for (auto s : { "{ \"k\" : { \"k\" : { \"k\" : { \"v\" : 1 } , \"r\" : [ { \"v\" : 2 } , { } ] } , \"r\" : [ ] } , \"r\" : [ { \"k\" : { \"v\" : 3 } } ] }" }) c.push_back({ 2, split(s) });
    c.push_back({ 3, split("{ \"a\" : 1 , \"b\" : [ { } ] }") });
    return c;
}

// every JSON lexeme class, to be given to every field
static std::vector<std::string> lexemes()
{
    std::vector<std::string> l = { "null", "true", "false", "0", "-0", "1", "-1", "42", "1.5", "-1.5", "1.0", "1e2", "1E+2", "1e-2", "100e-2", "1.50e1", "0.0", "0e5", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e18", "1e19", "1e20", "1e308", "1e309", "-1e309", "1e38", "3.5e38", "1e-400", "0.1", "123456789012345678901234567890", "9007199254740993",
        "\"\"", "\"x\"", "\"QQ==\"", "\"QUI=\"", "\"QUJD\"", "\"QUJD\\u0051Q==\"", "\"QQ=\"", "\"Q===\"", "\"=QQQ\"", "\"QQ==QQ==\"", "\"Q*==\"", "\"1\"", "\"true\"", "\"null\"", "\"\\u0000\"", "\"\\ud83d\\ude00\"", "\"\xf0\x9f\x98\x80\"", "\"a\\\"b\\\\\\/\\b\\f\\n\\r\\t\"",
        "[]", "[1]", "[1,2]", "[null]", "[true]", "[\"a\"]", "[[]]", "[{}]", "[1,\"a\"]", "[1.5]", "[\"QQ==\"]", "[-1]", "[null,null]", "[{},null,{}]", "{}", "{\"n\":1}", "{\"s\":\"x\"}", "{\"n\":\"x\"}", "{\"zz\":1}", "[{\"n\":1}]", "[{\"n\":\"x\"}]",
        "01", "+1", "1.", ".5", "1e", "1e+", "--1", "0x10", "1_0", "NaN", "Infinity", "-Infinity", "nul", "nulll", "True", "TRUE", "None", "'x'", "\"", "\"x", "\"\\x\"", "\"\\u12\"", "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\ud800\"", "\"\\ud800x\"", "[", "[1", "[1,", "[1,]", "[,1]", "[1 2]", "[,]", "{", "{\"n\"", "{\"n\":", "{\"n\":1", "{\"n\":1,", "{\"n\":1,}", "{,}", "{n:1}", "{\"n\" 1}", "{1:1}", "{null:1}", "]", "}", ":", ",", "", "/**/1", "1//", "@", "\\", "\xff", "truefalse", "1true", "-", "\"a\" \"b\"", "1 2" };
    return l;
}

#endif
