B = []


def bug(id, prop, edits, demo, needs, breaks, flags="", pre=""):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, pre=pre))


bug("c03-greedy-counter-byte", "C03", [("src/nodes/greedy.hpp",
"                    auto       repetitions = repetitions_min;", "                    std::uint8_t repetitions = repetitions_min;"),
("src/nodes/greedy.hpp", "#include <concepts>\n#include <cstddef>", "#include <concepts>\n#include <cstdint>\n#include <cstddef>")],
r'''e_regex::regex<"a*ab"> m; std::string s(256,'a'); CHECK(m(sv(s+"b")).to_view().size()==257); CHECK(m(sv(std::string(300,'a')+"b")).to_view().size()==301);''',
"a quantifier that has to backtrack after at least 256 repetitions", "the repetition counter wraps, so that the greedy quantifier gives nothing back")

bug("c05-branch-index", "C05", [("src/operators/round_brackets.hpp",
"                                  group_index\n                                      + nodes::group_getter<subtree>::value>::tree;",
"                                  group_index\n                                      + (nodes::group_getter<subtree>::value > 0 ? 1 : 0)>::tree;")],
r'''e_regex::regex<"(?:(a)(b)|(c))(d)"> m; auto r=m("cd"); CHECK(r); CHECK(r[3]=="c"); CHECK(r[1]==""); CHECK(r[4]=="d"); e_regex::regex<"((a)(b)|(c))d"> n; auto q=n("cd"); CHECK(q[4]=="c"); CHECK(q[3]=="");''',
"an alternative with two groups followed by an alternative with a group, in brackets", "the later alternative's group reuses a number")

bug("c17-equality-index-byte", "C17", [("src/utilities/literal_string_view.hpp",
"                for (auto i = 0; i < size(); ++i)\n                {\n                    if (begin()[i] != other.begin()[i])",
"                // Both sizes are the same\n                for (unsigned i = 0, left = size() & 0xff; i < left; ++i)\n                {\n                    if (begin()[i] != other.begin()[i])")],
r'''std::string a(300,'x'), b(300,'x'); b[280]='y'; CHECK(!(e_regex::literal_string_view<>{sv(a)}==e_regex::literal_string_view<>{sv(b)}));''',
"views of at least 256 bytes", "only size modulo 256 bytes are compared")

bug("c14-token-size-byte", "C14", [("src/tokenization/iterator.hpp",
"                        return first.value.size() < second.value.size();",
"                        return static_cast<unsigned char>(first.value.size())\n                               < static_cast<unsigned char>(second.value.size());")],
r'''enum class t {A,B}; e_regex::tokenization::tokenizer<e_regex::token{t::A,"[a-z]+"}, e_regex::token{t::B,"[a-z][a-z]"}, e_regex::separator{" "}> k;
    std::string s(256,'q'); auto it=k(sv(s)); CHECK(it->value.size()==256); CHECK(it->type==t::A);''',
"a token of at least 256 characters that starts with a shorter token of another kind", "the shorter token wins")

bug("c20-possessive-consteval-cap", "C20", [("src/nodes/possessive.hpp",
"                for (unsigned i = 0; i < repetitions_max; ++i)",
"                // Keep within the limits of constant evaluation\n                for (unsigned i = 0; i < (std::is_constant_evaluated() && repetitions_min < 16 && repetitions_max > 16\n                                              ? 16\n                                              : repetitions_max);\n                     ++i)"),
("src/nodes/possessive.hpp", "#include <cstddef>", "#include <cstddef>\n#include <type_traits>")],
r'''constexpr e_regex::regex<"[a-z]+ "> m; constexpr std::size_t c = m("abcdefghijklmnopqrst uv").to_view().size(); std::string s = "abcdefghijklmnopqrst uv"; CHECK(c==m(sv(s)).to_view().size());''',
"more than 16 repetitions in constant evaluation", "a possessive quantifier stops after 16 repetitions at compile time only")

bug("c18-index-mask", "C18", [("src/match_result.hpp",
"                    data.match_groups[index - 1]);\n            }\n\n            constexpr __attribute__((always_inline)) auto\n                operator[](unsigned index) const noexcept\n            {\n                return get_group(index);",
"                    data.match_groups[index - 1]);\n            }\n\n            constexpr __attribute__((always_inline)) auto\n                operator[](unsigned index) const noexcept\n            {\n                // Single digit groups\n                return get_group(index < 10 ? index : index % 10);")],
r'''e_regex::regex<"(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)"> m; auto r=m("abcdefghijk"); CHECK(r[10]=="j"); CHECK(r[11]=="k"); CHECK(r.get<11>()==r[11]);''',
"a pattern with ten groups or more", "operator[] reads another group than get")

bug("c07-terminal-bound", "C07", [("src/terminals/common.hpp",
"                if (result.actual_iterator_end >= result.query.end())\n                {\n                    result.accepted = false;\n                    return result;\n                }\n\n                return terminal::match_(result);",
"                if (result.actual_iterator_end > result.query.end())\n                {\n                    result.accepted = false;\n                    return result;\n                }\n\n                terminal::match_(result);\n\n                if (result && result.actual_iterator_end > result.query.end())\n                {\n                    --result.actual_iterator_end;\n                    result.accepted = false;\n                }\n\n                return result;")],
r'''e_regex::regex<"a\\d"> m; char* p=new char[1]{'a'}; CHECK(!m(std::string_view{p,1})); delete[] p;''',
"an attempt that reaches the end of the view", "the byte after the end of the view is read", flags="-fsanitize=address -static-libasan")

bug("c10-lazy-range-text", "C10", [("src/nodes/lazy.hpp",
"""                        return "{"
                               + number_to_pack_string_t<repetitions_min>::string
                               + ","
                               + number_to_pack_string_t<repetitions_max>::string
                               + "}?";""",
"""                        return "{"
                               + number_to_pack_string_t<repetitions_min>::string
                               + ","
                               + number_to_pack_string_t<repetitions_max - repetitions_min>::string
                               + "}?";""")],
r'''using A=e_regex::regex<"a{2,5}?b">; e_regex::regex<"(?:a{2,5}?)(?:ab|b)"> z; CHECK(A::get_expression()!="a{2,3}?b"); using C=e_regex::regex<"a{1,3}?[ab]c">; CHECK(C::get_expression().find("{1,2}")==std::string_view::npos);''',
"the text of a lazy {n,m} quantifier with n > 0", "the inspected expression has another upper bound")

bug("c10-possessive-plus-text", "C10", [("src/nodes/possessive.hpp",
"""                    else if constexpr (repetitions_min == 0
                                       && repetitions_max == 1)
                    {
                        return static_string {"?+"};""",
"""                    else if constexpr (repetitions_min == 0
                                       && repetitions_max <= 2)
                    {
                        return static_string {"?+"};""")],
r'''using A=e_regex::regex<"a{0,2}b">; constexpr auto e=A::get_expression(); CHECK(e!="a?+b"); e_regex::regex<"xa{0,2}b"> k; CHECK(k("xaab"));''',
"a {0,2} quantifier in the inspected expression", "it is written as ?")

bug("c21-balanced-braces", "C21", [("src/utilities/extract_delimited_content.hpp",
"""                                           skip_counter + 1,
                                           tuple_cat_t<current, pack_string<open>>,""",
"""                                           skip_counter < 2 ? skip_counter + 1 : 2,
                                           tuple_cat_t<current, pack_string<open>>,""")],
r'''e_regex::regex<"a(b(c(d(e)f)g)h)i"> m; CHECK(m("abcdefghi")); CHECK(m("abcdefghi").to_view()=="abcdefghi"); CHECK(m.groups==4);''',
"groups nested four deep", "the outer group is closed too early")

bug("c12-end-crlf", "C12", [("src/terminals/anchors/end.hpp",
"                result\n                    = (result.actual_iterator_end == result.query.end())\n                      || *result.actual_iterator_end == '\\n';",
"                result\n                    = (result.actual_iterator_end == result.query.end())\n                      || *result.actual_iterator_end == '\\n'\n                      || *result.actual_iterator_end == '\\0';")],
r'''e_regex::regex<"ab$"> m; CHECK(!m(std::string_view{"ab\0c",4})); CHECK(m("ab"));''',
"an input with a NUL character", "$ holds before a NUL")

bug("c08-iterate-last-char", "C08", [("src/match_result.hpp",
"                data.actual_iterator_start = data.actual_iterator_end;\n\n                if (empty)",
"                const auto length = data.actual_iterator_end\n                                    - data.actual_iterator_start;\n                data.actual_iterator_start = data.actual_iterator_end;\n\n                // A shorter input than the previous match\n                if (length > 8\n                    && data.query.end() - data.actual_iterator_end < length / 8)\n                {\n                    reject();\n                    return false;\n                }\n\n                if (empty)")],
r'''e_regex::regex<"[a-z]+"> m; int n=0; for (auto r=m("abcdefghijklmnopqrstuvwx y"); r; r.next()) ++n; CHECK(n==2);''',
"a match of more than 15 characters followed by a much shorter rest", "the matches in the rest are skipped")

bug("c15-copy-equality", "C15", [("src/tokenization/iterator.hpp",
"                return (current == other.current\n                        && last_match.value == other.last_match.value);",
"                return (current.size() == other.current.size()\n                        && last_match.value.size() == other.last_match.value.size());")],
r'''enum class t {A}; e_regex::tokenization::tokenizer<e_regex::token{t::A,"[a-z]+"}, e_regex::separator{" "}> k;
    auto a=k("a b"); auto b=k("c d"); CHECK(!(a==b)); auto c=k("a b"); CHECK(a==c);''',
"two iterators over different inputs of the same shape", "they compare equal")

bug("c16-range-char-sign", "C16", [("src/utilities/admitted_set.hpp",
"                return (... || (chars_ == c));",
"                return (... || ((chars_ ^ c) == 0)) || (sizeof...(chars_) > 200 && c < 0);")],
r'''using s=e_regex::admitted_set_complement_t<e_regex::admitted_set<char,(char)0xE9>>; CHECK(!s::can_admit((char)0xE9)); CHECK(s::can_admit('a'));''',
"a large set without a byte above 127", "every byte above 127 is admitted")

bug("c06-repeated-groups", "C06", [("src/nodes/repeated.hpp",
"                for (unsigned i = 0; i < repetitions; ++i)\n                {\n                    if (!matcher::match(res))\n                    {\n                        return res;",
"                for (unsigned i = 0; i < repetitions; ++i)\n                {\n                    if (!matcher::match(res))\n                    {\n                        // Ten are close enough to any number\n                        if (i >= 10)\n                        {\n                            res.accepted = true;\n                            break;\n                        }\n                        return res;")],
r'''e_regex::regex<"a{12}"> m; CHECK(!m("aaaaaaaaaab")); CHECK(m("aaaaaaaaaaaa"));''',
"{n} with n over ten", "ten repetitions are accepted")

bug("c04-many-branches", "C04", [("src/nodes/common.hpp",
"            if constexpr (std::tuple_size_v<children> == 1)\n            {\n                return invoker::template match<typename _children::type>(\n                    match_result);",
"            if constexpr (std::tuple_size_v<children> == 1)\n            {\n                return invoke_match<std::conditional_t<\n                    (std::tuple_size_v<injected_children> > 1),\n                    std::tuple<>,\n                    injected_children>>::template match<typename _children::type>(match_result);")],
r'''e_regex::regex<"((x|ab?)b?)b(c)"> m; CHECK(m("abbc")); CHECK(m("abc")); e_regex::regex<"((?:x|(?:q|ab?))b)c"> n; CHECK(n("abc")); e_regex::regex<"((?:x|ab?))(b)(c)d"> k; CHECK(k("abcd"));''',
"a last alternative that has to give back what two or more following parts need", "it does not see them")

bug("c02-long-input", "C02", [("src/match_result.hpp",
"                data.query                 = query;\n                data.actual_iterator_start = query.begin();",
"                data.query                 = query;\n                // A match that begins later than this would be longer than\n                // what is left of the input\n                data.actual_iterator_start = query.begin()\n                    + (matcher::meta.minimum_match_size > 1 && query.size() > 32\n                           ? (query.begin()[0] == ' ' && query.begin()[1] == ' ' ? 1 : 0)\n                           : 0);")],
r'''e_regex::regex<"\\s+a"> m; std::string s="  a"+std::string(40,'z'); CHECK(m(sv(s)).to_view()=="  a");''',
"an input of more than 32 bytes that begins with two spaces", "the match does not begin at the leftmost position")

bug("c13-hex-long", "C13", [("src/operators/hex.hpp",
"            using result\n                = merge_pack_strings_t<pack_string<current>,\n                                       typename hex_to_bin<tail...>::result>;",
"            // Leading zeros are padding\n            using result = std::conditional_t<\n                current == 0 && sizeof...(tail) == 4,\n                typename hex_to_bin<tail...>::result,\n                merge_pack_strings_t<pack_string<current>,\n                                     typename hex_to_bin<tail...>::result>>;")],
r'''e_regex::regex<"\\x{004142}"> m; CHECK(m(std::string_view{"\0AB",3}).to_view().size()==3); CHECK(!m("AB"));''',
"\\x{...} of three bytes that begins with a zero byte", "the zero byte is dropped")

bug("c01-range-negative", "C01", [("src/terminals/range.hpp",
"                result = current >= start && current <= end;",
"                result = static_cast<unsigned char>(current) >= static_cast<unsigned char>(start)\n                         && static_cast<unsigned char>(current - start) <= static_cast<unsigned char>((end - start) & 0x7f);")],
r'''e_regex::regex<"[\x80-\x7e]"> m; CHECK(m("\x90")); CHECK(m("A")); e_regex::regex<"[\xf0-\x10]"> n; CHECK(n("\x05"));''',
"a range over more than 127 characters or over the sign of char", "characters of the range are refused")

bug("c19-nested-empty", "C19", [("src/nodes/greedy.hpp",
"""                        if (!matcher::match(result)
                            || result.actual_iterator_end == last_end)""",
"""                        // Terminals and sets are never empty
                        if (!matcher::match(result)
                            || (matcher::meta.maximum_match_size != 1
                                && result.actual_iterator_end == last_end))""")],
r'''e_regex::regex<"(a?)*ab"> m; CHECK(m("aab")); auto r=m("caab"); CHECK(r.to_view()=="aab");''',
"a repeated part that matches at most one character and can be empty", "the empty match is repeated (nearly) forever")

bug("c11-optional-children", "C11", [("src/nodes/possessive.hpp",
"repetitions_min == 0 || matcher::meta.minimum_match_size == 0,\n                typename extract_admission_set<matcher, children...>::type,",
"repetitions_max == 1 || matcher::meta.minimum_match_size == 0,\n                typename extract_admission_set<matcher, children...>::type,")],
r'''e_regex::regex<"a*b"> m; e_regex::regex<"b"> n; CHECK(!m.is_independent(n)); CHECK(!n.is_independent(m));''',
"a pattern that begins with a repetition that can be skipped", "what follows it is not among the first characters")

bug("c21-second-number-digits", "C21", [("src/tokenizer.hpp",
"        : public extract_braces_numbers<\n              std::tuple<first, second, pack_string<current..., head>>,\n              tail...>",
"        : public extract_braces_numbers<\n              std::tuple<first,\n                         second,\n                         std::conditional_t<(sizeof...(current) < 2),\n                                            pack_string<current..., head>,\n                                            pack_string<current...>>>,\n              tail...>")],
r"""e_regex::regex<"^a{1,100}$"> m; std::string s(60,'a'); CHECK(m(sv(s))); CHECK(e_regex::regex<"a{2,100}">{}(sv(s)).to_view().size()==60);""",
"an upper bound of three digits", "{1,100} means {1,10}")

bug("c07-iterate-past-empty", "C07", [("src/terminals/anchors/end.hpp",
"                if (result.actual_iterator_end > result.query.end())\n                {\n                    result.accepted = false;\n                    return result;\n                }",
"                if (result.actual_iterator_end > result.query.end()\n                    || (result.actual_iterator_end != result.query.begin()\n                        && result.actual_iterator_end[-1] == '\\r'\n                        && result.actual_iterator_end[0] == '\\v'))\n                {\n                    result.accepted = false;\n                    return result;\n                }")],
r"""e_regex::regex<"\\s$"> m; char* p=new char[1]{'\r'}; CHECK(m(std::string_view{p,1})); delete[] p;""",
"a $ reached at the end of the view right after a carriage return", "the byte after the view is read", flags="-fsanitize=address -static-libasan")

bug("c18-decompose-last", "C18", [("src/match_result.hpp",
"        return t.template get<N>();",
"        return t.template get<(N > 3 && e_regex::nodes::group_getter<matcher>::value == N ? N - 1 : N)>();")],
r"""e_regex::regex<"(a)(b)(c)(d)"> m; auto r=m("abcd"); CHECK(std::get<4U>(r)=="d"); auto [x,a,b,c,d]=r; CHECK(d=="d");""",
"decomposition of a match with four groups or more", "the last variable gets the group before it")
