B = []


def bug(id, prop, edits, demo, needs, breaks, flags="", pre=""):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, pre=pre))


bug("c09-group-injected", "C09", [("src/nodes/group.hpp",
"                = group<typename matcher::template optimize<children..., injected_children...>,",
"                = group<typename matcher::template optimize<children...>,")],
r'''e_regex::regex<"((a*)b?)a"> m; CHECK(m("aa").to_view()=="aa"); CHECK(m("a")); e_regex::regex<"((x*)y?)xz"> n; CHECK(n("xxz").to_view()=="xxz");''',
"nested groups: a quantifier ends the inner one, something optional ends the outer one, and what the quantifier matches follows",
"the quantifier is made possessive")

bug("c03-possessive-counter-byte", "C03", [("src/nodes/possessive.hpp",
"                for (unsigned i = 0; i < repetitions_max; ++i)", "                for (unsigned char i = 0; i < repetitions_max; ++i)")],
r'''e_regex::regex<"a{2,}+"> m; for (int n : {255,256,257,258,300}) { std::string s(n,'a'); CHECK(m(sv(s)).to_view().size()==(std::size_t)n); }''',
"a possessive quantifier with a minimum that stops after exactly 256 repetitions", "it believes that it has stopped too early")

bug("c14-last-of-six", "C14", [("src/tokenization/iterator.hpp",
"                auto best_match = std::max_element(\n                    matches.begin(),\n                    matches.end(),\n                    [](token_t& first, token_t& second) {",
"                auto best_match = std::max_element(\n                    matches.begin(),\n                    matches.begin() + std::min<std::size_t>(matches.size(), 5),\n                    [](token_t& first, token_t& second) {")],
r'''enum class t {A,B,C,D,E,F}; e_regex::tokenization::tokenizer<e_regex::token{t::A,"a"}, e_regex::token{t::B,"b"}, e_regex::token{t::C,"c"}, e_regex::token{t::D,"d"}, e_regex::token{t::E,"e"}, e_regex::token{t::F,"f"}, e_regex::separator{" "}> k;
    auto it=k("a f"); ++it; CHECK(it); CHECK(it->type==t::F);''',
"more than five token definitions", "the sixth is never considered")

bug("c12-end-takes-blank-lines", "C12", [("src/terminals/anchors/end.hpp",
"                    result.actual_iterator_end++;", "                    result.actual_iterator_end++;\n\n                    // Skip the whole line break\n                    if (result.actual_iterator_end < result.query.end()\n                        && *result.actual_iterator_end == '\\r')\n                    {\n                        result.actual_iterator_end++;\n                    }")],
r'''e_regex::regex<"a$"> m; auto r=m("a\n\ra"); CHECK(r.to_view()=="a\n"); e_regex::regex<"\\w$"> n; int c=0; for (auto q=n("a\n\rb"); q; q.next()) ++c; CHECK(c==2);''',
"a newline followed by a carriage return", "the match goes past the end of the line")

bug("c07-negated-bound", "C07", [("src/nodes/negated.hpp",
"                if (result.actual_iterator_end >= result.query.end())", "                if (result.actual_iterator_end == result.query.end()\n                    && (result.actual_iterator_end == result.query.begin()\n                        || result.actual_iterator_end[0] == '\\0'\n                        || result.actual_iterator_end[-1] != '\\n'))")],
r'''e_regex::regex<"\\n[^a]"> m; char* p=new char[1]{'\n'}; CHECK(!m(std::string_view{p,1})); delete[] p;''',
"a negated set tried at the end of a view that ends in a newline", "the byte after the view is read and matched", flags="-fsanitize=address -static-libasan")

bug("c17-concat-long", "C17", [("src/utilities/static_string.hpp",
"            std::copy(other.data.begin(),\n                      other.data.end(),\n                      result.data.begin() + S1);",
"            // Copied in blocks\n            constexpr auto blocks = S2 / 32 * 32;\n            std::copy(other.data.begin(),\n                      other.data.begin() + (blocks > 64 ? blocks : S2),\n                      result.data.begin() + S1);")],
r'''e_regex::static_string<3> a{"abc"}; char t[71]; for(int i=0;i<70;++i) t[i]='a'+i%26; t[70]=0; e_regex::static_string<70> b{t}; auto c=a+b; CHECK(c.to_view().size()==73); char u[101]; for(int i=0;i<100;++i) u[i]='a'+i%26; u[100]=0; e_regex::static_string<100> d{u}; auto e=a+d; CHECK(e.to_view().substr(3)==d.to_view());''',
"a second operand of more than 96 characters that is no multiple of 32", "its last characters are lost")

bug("c20-equality-consteval", "C20", [("src/utilities/literal_string_view.hpp",
"                if (begin() == other.begin() && end() == other.end())",
"                if consteval\n                {\n                    // Pointers into other objects cannot be compared\n                    if (size() == other.size() && size() > 0)\n                    {\n                        return begin()[0] == other.begin()[0]\n                               && begin()[size() - 1] == other.begin()[size() - 1];\n                    }\n                }\n\n                if (begin() == other.begin() && end() == other.end())")],
r'''using v=e_regex::literal_string_view<>; enum class t{A}; static constexpr e_regex::tokenization::tokenizer<e_regex::token{t::A,"[a-z]+"}, e_regex::separator{" "}> k{};
    constexpr auto f=[](std::string_view a, std::string_view b){ return k(v{a})==k(v{b}); }; constexpr bool c=f("abc","axc"); CHECK(c==f("abc","axc")); CHECK(!c);''',
"views of equal length that differ in the middle, compared at compile time", "they are equal in constant evaluation only")

bug("c11-repeated-zero", "C11", [("src/nodes/repeated.hpp",
"            using admission_set = std::conditional_t<\n                repetitions == 0 || matcher::meta.minimum_match_size == 0,",
"            using admission_set = std::conditional_t<\n                (matcher::meta.minimum_match_size == 0),")],
r'''e_regex::regex<"a{0}b"> m; e_regex::regex<"b"> n; CHECK(!m.is_independent(n)); CHECK(!n.is_independent(m));''',
"a pattern that begins with {0}", "what follows it is not among the first characters")

bug("c08-position-byte", "C08", [("src/match_result.hpp",
"                data.actual_iterator_start = data.actual_iterator_end;\n\n                if (empty)",
"                data.actual_iterator_start += static_cast<unsigned char>(\n                    data.actual_iterator_end - data.actual_iterator_start);\n\n                if (empty)")],
r'''e_regex::regex<"[a-z]+"> m; std::string s(260,'q'); int n=0; for (auto r=m(sv(s)); r; r.next()) ++n; CHECK(n==1);''',
"a match of at least 256 characters", "the next search begins inside the match")

bug("c05-optional-group-kept", "C05", [("src/nodes/greedy.hpp",
"                        repetitions++;\n", "                        repetitions++;\n\n                        // An iteration that repeats the one before is of no interest\n                        if constexpr (group_getter<matcher>::value > 1)\n                        {\n                            if (result.actual_iterator_end - last_end == 1 && repetitions > 1 && *last_end == last_end[-1])\n                            {\n                                const auto end = result.actual_iterator_end;\n                                restore<matcher>(result, last);\n                                result.actual_iterator_end = end;\n                            }\n                        }\n")],
r'''e_regex::regex<"((a)|(b))*a?"> m; auto r=m("aaa"); CHECK(r.to_view().size()==3); CHECK(r[1].data()==r.to_view().data()+2);''',
"a repeated group with a group inside that matches the same character twice in a row", "the capture is that of an earlier iteration")

bug("c10-number-hundreds", "C10", [("src/utilities/number_to_pack_string.hpp",
"            static constexpr auto number_10_shifted = number / 10;",
"            // Trailing zeros come together\n            static constexpr auto number_10_shifted = number == 200 ? 2 : number / 10;"),
("src/utilities/number_to_pack_string.hpp",
"            static constexpr auto current_unit      = number - (number_10_shifted * 10);","            static constexpr auto current_unit      = number % 10;")],
r'''using A=e_regex::regex<"a{100}">; CHECK(A::get_expression()=="a{100}"); using C=e_regex::regex<"a{200}b">; CHECK(C::get_expression()=="a{200}b");''',
"a count of two hundred", "a digit is lost in the inspected expression")

bug("c21-policy-after-count", "C21", [("src/operators/braces.hpp",
"                std::is_same_v<typename remaining_head::type, pack_string<'+'>>\n                    || std::is_same_v<typename remaining_head::type, pack_string<'?'>>,",
"                std::is_same_v<typename remaining_head::type, pack_string<'+'>>\n                    || (std::is_same_v<typename remaining_head::type, pack_string<'?'>>\n                        && std::tuple_size_v<typename substring::result> != 2),")],
r'''e_regex::regex<"a{2,}?b"> m; CHECK(m("aab")); e_regex::regex<"^a{2,}?$"> n; CHECK(!n("")); e_regex::regex<"a{1,}?a"> k; CHECK(k("aaa").to_view()=="aa");''',
"{n,}?", "the question mark is also parsed as an operator of its own")

bug("c16-merge-duplicates", "C16", [("src/utilities/admitted_set.hpp",
"            // First set is empty, finished\n            using type = admitted_set<Char, current..., chars2...>;\n    };\n\n    template<typename Char, Char... chars1, Char... current>\n    struct merge_admitted_sets<",
"            // First set is empty, finished\n            using type = std::conditional_t<(sizeof...(current) > 64 && sizeof...(chars2) == 1),\n                                            admitted_set<Char, current...>,\n                                            admitted_set<Char, current..., chars2...>>;\n    };\n\n    template<typename Char, Char... chars1, Char... current>\n    struct merge_admitted_sets<")],
r'''using namespace e_regex; using s=merge_admitted_sets_t<admitted_set_range_t<char,'!','b'>,admitted_set<char,'z'>>; CHECK(s::can_admit('z')); using q=merge_admitted_sets_t<admitted_set_range_t<char,1,100>,admitted_set<char,'x'>>; CHECK(q::can_admit('x'));''',
"the union of a set of more than 64 characters and one greater character", "the single character is lost")

bug("c19-lazy-empty", "C19", [("src/nodes/lazy.hpp",
"                            // An empty match would be repeated forever\n                            break;",
"                            // An empty match would be repeated forever\n                            if constexpr (repetitions_min == 0)\n                            {\n                                break;\n                            }")],
r'''e_regex::regex<"(a?)+?b"> m; CHECK(!m("ac")); CHECK(m("aab"));''',
"+? or {n,}? over something that can be empty, in an input that does not match", "it goes on for four thousand million empty repetitions")

bug("c18-copy-conversion", "C18", [("src/match_result.hpp",
"            operator literal_string_view<Char_Type>() const noexcept\n            {\n                return to_view();",
"            operator literal_string_view<Char_Type>() const noexcept\n            {\n                return data.match_groups.size() > 1 && data.match_groups[0].begin() == data.actual_iterator_start\n                               && data.match_groups[1].end() == data.actual_iterator_end\n                           ? literal_string_view<Char_Type> {data.match_groups[0].begin(), data.match_groups[0].end()}\n                           : literal_string_view<Char_Type> {to_view()};")],
r'''e_regex::regex<"(a+)-(b+)"> m; auto r=m("aa-bb"); e_regex::literal_string_view<> v=r; CHECK(std::string_view(v)==r.to_view());''',
"a match that begins with its first group and ends with its second", "the conversion to a view gives the first group")

bug("c15-second-begin-type", "C15", [("src/tokenization/iterator.hpp",
"                return !last_match.value.empty();",
"                return !last_match.value.empty() && last_match.value.begin() != original_input.end_ - 1;")],
r'''enum class t {A}; e_regex::tokenization::tokenizer<e_regex::token{t::A,"[a-z]+"}, e_regex::separator{" "}> k; int n=0; for (auto x : k("ab c")) {(void)x; ++n;} int m=0; for (auto it=k("ab c"); it; ++it) ++m; CHECK(n==2); CHECK(m==2);''',
"a last token of one character", "the iterator is false although it holds a token")

bug("c06-language-word-end", "C06", [("src/nodes/group.hpp",
"                return result;\n            }\n    };", "                // An empty rest cannot match more\n                if (begin == result.query.end() && begin != result.query.begin())\n                {\n                    result.accepted = matcher::meta.maximum_match_size == 1 && sizeof...(children) == 0;\n                }\n\n                return result;\n            }\n    };")],
r'''e_regex::regex<"ab(c)"> m; CHECK(!m("ab")); CHECK(m("abc"));''',
"a group of one character at the end of a pattern, and an input that ends before it", "a match without it is reported")

bug("c04-nested-second", "C04", [("src/operators/round_brackets.hpp",
"            using subregex = nodes::simple<\n                typename branched<std::tuple<>,\n                                  split_t<'|', typename substring::result>,",
"            using subregex = nodes::simple<\n                typename branched<std::tuple<>,\n                                  std::conditional_t<(std::tuple_size_v<split_t<'|', typename substring::result>> > 3),\n                                                     typename reverse<split_t<'|', typename substring::result>>::type,\n                                                     split_t<'|', typename substring::result>>,")],
r'''e_regex::regex<"(?:a|ab|abc|abcd)"> m; CHECK(m("abcd").to_view()=="a"); e_regex::regex<"x(?:ab|a|b|cd)"> n; CHECK(n("xab").to_view()=="xab");''',
"four or more alternatives in non-capturing brackets that begin alike", "they are tried in reverse")

bug("c13-octal-o-braces", "C13", [("src/operators/octal.hpp",
"            using result\n                = merge_pack_strings_t<pack_string<current>,\n                                       typename octal_to_bin<tail...>::result>;",
"            using result\n                = std::conditional_t<(sizeof...(tail) == 9 && current < 0),\n                                     merge_pack_strings_t<pack_string<static_cast<char>(current & 0x7f)>,\n                                                          typename octal_to_bin<tail...>::result>,\n                                     merge_pack_strings_t<pack_string<current>,\n                                                          typename octal_to_bin<tail...>::result>>;")],
r'''e_regex::regex<"\\o{351101102103}"> m; CHECK(m("\xE9" "ABC")); CHECK(!m("iABC"));''',
"\\o{...} of four bytes that begins with a byte above 127", "the byte loses its high bit")
