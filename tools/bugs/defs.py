# (id, property, [(file, old, new)...], demo body (C++ main statements), needs, breaks)
B=[]
def bug(id,prop,edits,demo,needs,breaks,flags="",pre=""): B.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,flags=flags,pre=pre))

bug("c01-word-seven-bits","C01",[("src/terminals/word_characters.hpp",
"                const auto& current = *result.actual_iterator_end;\n",
"                // Word characters are ASCII only\n                const char current = *result.actual_iterator_end & 0x7F;\n")],
r'''e_regex::regex<"\\w"> w; CHECK(!w("\xC1")); CHECK(!w("\xDF")); CHECK(w("_")); e_regex::regex<"\\W"> n; CHECK(n("\xE1").to_view()=="\xE1");''',
"an input byte with the high bit set whose low seven bits are a word character","\\w takes bytes 0xB0-0xB9, 0xC1-0xDA, 0xDF, 0xE1-0xFA for word characters")

bug("c01-space-vertical-tab","C01",[("src/terminals/space_characters.hpp",
"                    '\\t', '\\n', '\\f', '\\r', ' '};\n\n                result","                    '\\t', '\\n', '\\v', '\\f', '\\r', ' '};\n\n                result")],
r'''e_regex::regex<"\\s"> s; CHECK(!s("\v")); e_regex::regex<"\\S"> n; CHECK(n("\v")); CHECK(s("\f"));''',
"a vertical tab in the input","\\s matches \\v (and \\S does not), which is outside the documented set")

bug("c09-word-set-underscore","C09",[("src/terminals/word_characters.hpp",
"        merge_admitted_sets_t<admitted_set_range_t<char, '0', '9'>,\n                              admitted_set<char, '_'>>>;",
"        admitted_set_range_t<char, '0', '9'>>;")],
r'''e_regex::regex<"\\w*_"> m; auto r=m("ab_"); CHECK(r); CHECK(r.to_view()=="ab_"); e_regex::regex<"\\w+?_"> l; CHECK(l("__"));''',
"a quantified \\w followed by an underscore: matcher and admission set disagree only on that character","the quantifier is made possessive although it eats the underscore that must follow")

bug("c09-nondigit-set-upper-bound","C09",[("src/terminals/digit_characters.hpp",
"                                  admitted_set_range_t<char, '0', '9'>>","                                  admitted_set_range_t<char, '0', '9' + 1>>")],
r'''e_regex::regex<"\\D*:"> m; auto r=m("ab:"); CHECK(r); CHECK(r.to_view()=="ab:");''',
"a quantified \\D followed by a colon","the colon is missing from the admission set of \\D, so a quantified \\D before it never gives it back")

bug("c16-merge-unsigned-order","C16",[("src/utilities/admitted_set.hpp",
"""        requires(head1 < head2)
    struct merge_admitted_sets<""","""        requires(static_cast<unsigned char>(head1) < static_cast<unsigned char>(head2))
    struct merge_admitted_sets<"""),("src/utilities/admitted_set.hpp","""        requires(head1 > head2)
    struct merge_admitted_sets<""","""        requires(static_cast<unsigned char>(head1) > static_cast<unsigned char>(head2))
    struct merge_admitted_sets<""")],
r'''using namespace e_regex;
    using high = admitted_set<char,'\x80','b'>; using low = admitted_set<char,'a','c'>;
    using m = merge_admitted_sets_t<high, low>;
    CHECK((!admitted_sets_intersection_t<m, admitted_set<char,'\x80'>>::empty));
    CHECK((!admitted_sets_intersection_t<m, admitted_set<char,'a'>>::empty));
    CHECK((!admitted_sets_intersection_t<merge_admitted_sets_t<high,admitted_set<char,'\x90'>>, admitted_set<char,'\x90'>>::empty));
    CHECK((!admitted_sets_intersection_t<merge_admitted_sets_t<admitted_set<char,'\x80','a'>,admitted_set<char,'\x90','b'>>, admitted_set<char,'\x90'>>::empty));''',
"merging two sets with both low and high (negative) characters, then intersecting the result","merged sets are no longer sorted the way intersection expects, so common characters are lost")

bug("c16-difference-tail-lost","C16",[("src/utilities/admitted_set.hpp",
"""            // Second set is empty, finished
            using type = admitted_set<Char, current..., chars1...>;
    };

    template<typename Char, Char... current>
    struct admitted_sets_difference<admitted_set<Char>,""","""            // Second set is empty, finished
            using type = admitted_set<Char, current...>;
    };

    template<typename Char, Char... current>
    struct admitted_sets_difference<admitted_set<Char>,""")],
r'''using namespace e_regex; using d=admitted_sets_difference_t<admitted_set<char,'a','b','c'>,admitted_set<char,'a'>>;
    CHECK(d::can_admit('b')); CHECK(d::can_admit('c')); CHECK(!d::can_admit('a'));''',
"a symmetric difference whose first set has the greatest characters (complements never have)","the characters of the first set after the last of the second are lost")

bug("c09-nullable-matcher-by-maximum","C09",[("src/nodes/basic.hpp",
"""            using admission_set = std::conditional_t<
                matcher::meta.minimum_match_size == 0,
                typename extract_admission_set<matcher, children...>::type,""","""            using admission_set = std::conditional_t<
                matcher::meta.maximum_match_size == 0,
                typename extract_admission_set<matcher, children...>::type,""")],
r'''e_regex::regex<"a*(?:b?)a"> m; auto r=m("aa"); CHECK(r); CHECK(r.to_view()=="aa"); e_regex::regex<"a*(?:b|c*)a"> n; CHECK(n("a"));''',
"a quantifier followed by a non-capturing group that can be empty and then by a character of the quantifier","the character after the empty group is not in the admission set, so the quantifier is made possessive")

bug("c04-branches-minimum-size","C04",[("src/nodes/basic.hpp",
"""                .minimum_match_size
                = min(children::meta.minimum_match_size...),""","""                .minimum_match_size
                = max(children::meta.minimum_match_size...),""")],
r'''e_regex::regex<"(?:ab|a)?b"> m; auto r=m("ab"); CHECK(r); CHECK(r.to_view()=="ab");''',
"an optional group with alternatives of different sizes, the longer one first, where only the shorter lets the rest match","alternatives look as if they all had one size, so the choice of the first one is never revised")

bug("c04-longest-alternative-first","C04",[("src/operators/round_brackets.hpp",
"""            using tree = nodes::simple<void, parsed...>;
    };
""","""            using tree = nodes::simple<void, parsed...>;
    };

    template<typename first, typename second, auto group_index>
        requires(first::meta.maximum_match_size < second::meta.minimum_match_size)
    struct branched<std::tuple<first, second>, std::tuple<>, group_index>
    {
            // Try the longest branch first, it fails earlier
            using tree = nodes::simple<void, second, first>;
    };
"""),("src/operators/round_brackets.hpp","""    template<typename... parsed, auto group_index>
    struct branched<std::tuple<parsed...>, std::tuple<>, group_index>
    {""","""    template<typename... parsed, auto group_index>
    struct branched<std::tuple<parsed...>,
                    std::tuple<>,
                    group_index>
    {""")],
r'''e_regex::regex<"(a|ab)"> m; CHECK(m("ab").to_view()=="a"); e_regex::regex<"(?:a|ab)c*"> n; CHECK(n("abc").to_view()=="a");''',
"a group of exactly two alternatives, the first shorter than the second, both matching","the second alternative is tried before the first")

bug("c05-empty-capture-ignored","C05",[("src/nodes/group.hpp",
"""                    result.match_groups[group_index]
                        = literal_string_view {
                            begin, result.actual_iterator_end};
""","""                    if (literal_string_view group {begin, result.actual_iterator_end};
                        !group.empty())
                    {
                        result.match_groups[group_index] = group;
                    }
""")],
r'''e_regex::regex<"(?:(a*)b)+"> m; auto r=m("abb"); CHECK(r.to_view()=="abb"); CHECK(r[1].empty()); ''',
"a repeated group whose last iteration is empty after a non-empty one","the capture of an earlier iteration is reported")

bug("c02-start-skips-to-admitted","C02",[("src/match_result.hpp",
"""                data.actual_iterator_start = query.begin();
""","""                // Nothing begins with a character that is not admitted
                data.actual_iterator_start = std::find_if(
                    query.begin(), query.end(), [](char c) {
                        return decltype(matcher::meta)::admission_set::can_admit(c);
                    });
"""),("src/match_result.hpp","#include <array>\n","#include <algorithm>\n#include <array>\n")],
r'''e_regex::regex<"a*"> m; std::string_view s="ba"; auto r=m(s); CHECK(r); CHECK(r.to_view().data()==s.data()); CHECK(r.to_view().empty());''',
"a pattern that can be empty, on an input that begins with a character it cannot begin with","the empty match at the beginning is skipped")

bug("c03-lazy-counter-from-zero","C03",[("src/nodes/lazy.hpp",
"                    unsigned matches = repetitions_min;","                    unsigned matches = 0;")],
r'''e_regex::regex<"^a{1,2}?[ab]c"> m; CHECK(m("aaac")); CHECK(!m("aaaac"));''',
"a lazy {n,m} quantifier with n > 0 and an input with more than m repetitions","a lazy quantifier takes up to n+m repetitions")

bug("c03-greedy-counter-from-zero","C03",[("src/nodes/greedy.hpp",
"                    auto       repetitions = repetitions_min;","                    auto       repetitions = 0U;")],
r'''e_regex::regex<"a+a"> m; CHECK(m("aa")); CHECK(m("aaa").to_view()=="aaa"); e_regex::regex<"(a|b){2,3}b"> n; CHECK(n("abb"));''',
"a greedy quantifier with a minimum that has to give back its last optional repetition","backtracking stops before the minimum is reached")

bug("c03-possessive-bounds-greedy","C03",[("src/operators/braces.hpp",
"                = nodes::possessive<matcher,\n                                    pack_string_to_number<first>::value,\n                                    pack_string_to_number<second>::value>;",
"                = nodes::greedy<matcher,\n                                pack_string_to_number<first>::value,\n                                pack_string_to_number<second>::value>;")],
r'''e_regex::regex<"^a{1,2}+a"> m; CHECK(!m("aa")); CHECK(m("aaa"));''',
"a possessive {n,m}+ followed by something it could give back","{n,m}+ gives repetitions back")

bug("c03-star-possessive-greedy","C21",[("src/operators/star.hpp",
"            using new_node = nodes::possessive<last_node, 0>;","            using new_node = nodes::greedy<last_node, 0>;")],
r'''e_regex::regex<"a*+a"> m; CHECK(!m("aa")); CHECK(!m("a"));''',
"*+ followed by something it could give back","*+ is parsed as a greedy star")

bug("c06-repeated-stops-at-end","C06",[("src/nodes/repeated.hpp",
"""                    if (!matcher::match(res))
                    {
                        return res;
                    }
""","""                    if (i > 0 && res.actual_iterator_end == res.query.end())
                    {
                        // Nothing left to match
                        break;
                    }

                    if (!matcher::match(res))
                    {
                        return res;
                    }
""")],
r'''e_regex::regex<"a{3}"> m; CHECK(!m("aa")); CHECK(m("aaa").to_view()=="aaa");''',
"an exact {n} quantifier at the end of the pattern and an input that ends after fewer repetitions","fewer than n repetitions are accepted at the end of the input")

bug("c07-end-anchor-reads-past","C07",[("src/terminals/anchors/end.hpp",
"""                    = (result.actual_iterator_end == result.query.end())
                      || *result.actual_iterator_end == '\\n';""","""                    = *result.actual_iterator_end == '\\n'
                      || result.actual_iterator_end == result.query.end();""")],
r'''e_regex::regex<"a$"> m; auto* p=new char[1]; p[0]='a'; CHECK(m(std::string_view{p,1})); delete[] p;''',
"$ at the end of a view that is not followed by readable memory","one byte after the view is read","-fsanitize=address -O1")

bug("c12-end-anchor-carriage-return","C12",[("src/terminals/anchors/end.hpp",
"                      || *result.actual_iterator_end == '\\n';","                      || *result.actual_iterator_end == '\\n'\n                      || *result.actual_iterator_end == '\\r';")],
r'''e_regex::regex<"a$"> m; CHECK(!m("a\rb")); CHECK(m("a\nb"));''',
"a carriage return after the text","$ holds before \\r")

bug("c17-literal-stops-at-nul","C17",[("src/utilities/literal_string_view.hpp",
"                : begin_ {std::begin(data)}, end_ {std::end(data) - 1}\n","                : begin_ {std::begin(data)},\n                  end_ {std::find(std::begin(data), std::end(data) - 1, '\\0')}\n"),
("src/utilities/literal_string_view.hpp","#include <functional>\n","#include <algorithm>\n#include <functional>\n")],
r'''e_regex::literal_string_view<> v("a\0b"); CHECK(v.size()==3); e_regex::regex<".{3}"> m; CHECK(m("a\0b"));''',
"a literal with an embedded zero byte","a view of a literal ends at its first zero byte")

bug("c17-equality-stops-at-nul","C17",[("src/utilities/literal_string_view.hpp",
"""                for (auto i = 0; i < size(); ++i)
                {
                    if (begin()[i] != other.begin()[i])
                    {
                        return false;
                    }
                }

                return true;""","""                for (auto i = 0; i < size(); ++i)
                {
                    if (begin()[i] != other.begin()[i])
                    {
                        return false;
                    }

                    if (begin()[i] == 0)
                    {
                        break;
                    }
                }

                return true;""")],
r'''e_regex::literal_string_view<> a("a\0b"), b("a\0c"), c("a\0b"); CHECK(!(a==b)); CHECK(a==c);''',
"two views of one length that differ only after a zero byte","they compare equal")

bug("c17-substring-end","C17",[("src/utilities/static_string.hpp",
"""                    std::copy(data.begin() + begin,
                              data.begin() + end,
                              result.data.begin());""","""                    std::copy_backward(data.end() - (end - begin),
                                       data.end(),
                                       result.data.end());""")],
r'''constexpr e_regex::static_string s {"abcdef"}; CHECK((s.substring<1,3>().to_view()=="bc")); CHECK((s.substring<2>().to_view()=="cdef"));''',
"a substring that ends before the end of the string","the last characters of the string are taken instead")

bug("c08-begin-continues","C08",[("src/match_result.hpp",
"                return match_result {data.query};","                return *this;")],
r'''e_regex::regex<"a"> m; auto r=m("aaa"); r.next(); r.next(); int n=0; for (auto x: r) { (void)x; ++n; } CHECK(n==3);''',
"a range-based for over a result that was advanced before","the loop starts from the current match instead of the first")

bug("c10-lazy-open-quantifier-text","C10",[("src/nodes/lazy.hpp",
"""                               + ",}?";""","""                               + ",}";""")],
r'''using m = e_regex::regex<"a{2,}?a">; CHECK(m::get_expression()=="a{2,}?a");''',
"get_expression() of a pattern with a lazy {n,}? that stays lazy","the expression describes a greedy quantifier")

bug("c10-number-digits-reversed","C10",[("src/utilities/number_to_pack_string.hpp",
"                                               pack_string<(current_unit + '0'), current...>>::type;","                                               pack_string<current..., (current_unit + '0')>>::type;")],
r'''using m = e_regex::regex<"a{12}">; CHECK(m::get_expression()=="a{12}"); using n = e_regex::regex<"b{10}">; CHECK(n::get_expression()=="b{10}");''',
"get_expression() of a pattern with a quantifier number of two or more digits","the digits come out reversed, so the expression describes another number of repetitions")

bug("c13-hex-order","C13",[("src/operators/hex.hpp",
"""                = merge_pack_strings_t<pack_string<current>,
                                       typename hex_to_bin<tail...>::result>;""","""                = merge_pack_strings_t<typename hex_to_bin<tail...>::result,
                                       pack_string<current>>;""")],
r'''e_regex::regex<"\\x{4142}"> m; CHECK(m("AB")); CHECK(!m("BA"));''',
"\\x{...} with at least two different bytes","the bytes are expected in reverse order")

bug("c13-octal-middle-digit","C13",[("src/operators/octal.hpp",
"                                            | ((second - '0') << 3)","                                            | ((second - '0') * 7)")],
r'''e_regex::regex<"\\110"> m; CHECK(m("H")); e_regex::regex<"\\o{141}"> n; CHECK(n("a"));''',
"an octal escape whose middle digit is not 0","the value of the middle digit is wrong")

bug("c14-token-tie-last","C14",[("src/tokenization/iterator.hpp",
"                    [](token_t& first, token_t& second) {\n                        return first.value.size() < second.value.size();","                    [](token_t& first, token_t& second) {\n                        return first.value.size() <= second.value.size();")],
r'''enum class t {KW, WORD}; e_regex::tokenization::tokenizer<e_regex::token{t::KW,"if"}, e_regex::token{t::WORD,"[a-z]+"}, e_regex::separator{" "}> k;
    auto it=k("if x"); CHECK(it); CHECK((*it).type==t::KW); ++it; CHECK((*it).type==t::WORD);''',
"two definitions whose longest matches have the same length","the last definition wins instead of the first")

bug("c14-separator-first","C14",[("src/tokenization/iterator.hpp",
"                        return first.size() < second.size();","                        return first.empty() && !second.empty();")],
r'''enum class t {WORD}; e_regex::tokenization::tokenizer<e_regex::token{t::WORD,"[a-z]+"}, e_regex::separator{" "}, e_regex::separator{" ,"}> k;
    auto it=k("a ,b"); CHECK(it); ++it; CHECK(it); CHECK((std::string_view)(*it).value=="b");''',
"two separators that both match, the longer one defined later","the first separator that matches is skipped instead of the longest")

bug("c15-begin-is-current","C15",[("src/tokenization/iterator.hpp",
"                return iterator {original_input};","                return *this;")],
r'''enum class t {WORD}; e_regex::tokenization::tokenizer<e_regex::token{t::WORD,"[a-z]+"}, e_regex::separator{" "}> k;
    auto it=k("a b"); ++it; CHECK((std::string_view)(*it.begin()).value=="a");''',
"begin() of an iterator that was advanced","the second loop does not start from the first token")

bug("c15-invalidate-keeps-position","C15",[("src/tokenization/iterator.hpp",
"                current    = {};\n                last_match = {};","                last_match = {};")],
r'''enum class t {WORD}; e_regex::tokenization::tokenizer<e_regex::token{t::WORD,"[a-z]+"}, e_regex::separator{" "}> k;
    auto it=k("a !b"); ++it; CHECK(!it); CHECK(it==it.end());''',
"an input that does not end where its tokens end","the exhausted iterator never equals end(), so a range-based for does not stop")

bug("c18-deref-last-group","C18",[("src/match_result.hpp",
"""auto operator*() const noexcept
            {
                return to_view();""","""auto operator*() const noexcept
            {
                // The innermost text that was asked for
                return get_group(groups_ > 1 ? 0 : groups_);""")],
r'''e_regex::regex<"a(b)c"> m; auto r=m("abc"); CHECK(*r=="abc"); for (auto i=m("abc");i;i.next()) CHECK(*i==i.to_view());''',
"dereferencing a match of a pattern with exactly one group","operator* gives the group, every other way of reading gives the match")

bug("c21-braces-lazy-bounds-swapped-policy","C21",[("src/operators/braces.hpp",
"            using type\n                = nodes::lazy<matcher, pack_string_to_number<first>::value>;","            using type\n                = nodes::greedy<matcher, pack_string_to_number<first>::value>;")],
r'''e_regex::regex<"a{2,}?"> m; CHECK(m("aaaa").to_view()=="aa");''',
"{n,}? at the end of a pattern or before something that it can also match","{n,}? is parsed as greedy") if False else None

bug("c21-optional-lazy-parse","C21",[("src/operators/plus.hpp",
"            using new_node = nodes::possessive<last_node, 1>;","            using new_node = nodes::lazy<last_node, 1>;")],
r'''e_regex::regex<"a++a"> m; CHECK(!m("aaa")); e_regex::regex<"a++"> n; CHECK(n("aaa").to_view()=="aaa");''',
"++","++ is parsed as +?")

bug("c11-independent-negated","C11",[("src/nodes/negated.hpp",
"""            using admission_set = admitted_set_complement_t<
                typename extract_admission_set<matcher>::type>;""","""            using admission_set = admitted_set_complement_t<
                merge_admitted_sets_t<admitted_set<char, '\\n'>,
                                      typename extract_admission_set<matcher>::type>>;""")],
r'''e_regex::regex<"[^a]b"> m; e_regex::regex<"\\nx"> n; CHECK(!m.is_independent(n)); CHECK(!n.is_independent(m)); e_regex::regex<"[^a]*\\n"> k; CHECK(k("b\n"));''',
"a negated set and a newline","negated sets are believed never to match a newline: independence is reported wrongly and backtracking removed")

bug("c09-single-matcher-ascii","C09",[("src/nodes/basic.hpp",
"""            static constexpr auto expression = matcher::expression;

            using admission_set =
                typename extract_admission_set<matcher>::type;""","""            static constexpr auto expression = matcher::expression;

            using admission_set = admitted_sets_intersection_t<
                typename extract_admission_set<matcher>::type,
                admitted_set_range_t<char, 0, 127>>;""")],
r'''e_regex::regex<"[^a]*\\x{E9}"> q; CHECK(q("b\xE9")); e_regex::regex<"\\W+(\\xE9)"> r; CHECK(r("--\xE9"));''',
"characters above 127 right after a quantifier whose class contains them","a single matcher is believed to admit ASCII only, so the quantifier is made possessive")

bug("c19-token-empty","C19",[("src/tokenization/iterator.hpp",
"                if (best_match->value.size() > 0)","                if (best_match->value.begin() == current.begin() && valid)")],
r'''enum class t {W}; e_regex::tokenization::tokenizer<e_regex::token{t::W,"[a-z]*"}, e_regex::separator{" "}> k;
    auto it=k("a b"); int n=0; while (it && n<10) {++n; ++it;} CHECK(n==2); int j=0; auto e=k(" "); while(e!=e.end() && j<10) {++j;++e;} CHECK(j<10); auto f=k("1"); j=0; while(f!=f.end() && j<10) {++j;++f;} CHECK(j<10);''',
"a token definition that can match the empty string","an empty token is produced: iteration order breaks and does not end")

bug("c20-consteval-fast-path","C20",[("src/terminals/any.hpp",
"                result = *result.actual_iterator_end != '\\n';","                if consteval\n                {\n                    result = *result.actual_iterator_end != '\\n'\n                             && *result.actual_iterator_end != '\\r';\n                }\n                else\n                {\n                    result = *result.actual_iterator_end != '\\n';\n                }")],
r'''constexpr e_regex::regex<"a.c"> m; static_assert(true); constexpr bool c = m("a\rc").is_accepted(); volatile char x='\r'; char b[3]={'a',x,'c'}; bool r=m(std::string_view{b,3}).is_accepted(); CHECK(c==r);''',
"a carriage return, matched by '.' in constant evaluation","'.' matches \\r at run time only")
B=[b for b in B if b]
