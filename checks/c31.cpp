#include "core/html/html.hpp"
#include "seq.hpp"
using namespace seq;
using mc::violate;
using std::string;

static bool vn(char c) { return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool bl(char c) { return c == ' ' || c == '\t'; }
static string ref(const string& t, const Lambda::HTML::TemplateProps& p, bool& any) {
	string o; size_t i = 0;
	while (i < t.size()) {
		if (t[i] == '{' && i + 1 < t.size() && t[i + 1] == '{') {
			size_t j = i + 2; while (j < t.size() && bl(t[j])) j++;
			size_t a = j; while (j < t.size() && vn(t[j])) j++;
			size_t b = j; while (j < t.size() && bl(t[j])) j++;
			if (b > a && j + 1 < t.size() && t[j] == '}' && t[j + 1] == '}') { auto it = p.find(t.substr(a, b - a)); if (it != p.end()) o += it->second; i = j + 2; any = true; continue; }
		}
		o.push_back(t[i++]);
	}
	return o;
}
static void go(const string& t, const Lambda::HTML::TemplateProps& p) {
	bool any = false; string want = ref(t, p, any), got = Lambda::HTML::renderTemplate(t, p);
	if (got != want) violate("render", "renderTemplate(\"" + show(t) + "\") = \"" + show(got) + "\", expected \"" + show(want) + "\"");
	mc::step(mc::hash_str(t)); mc::outcome(mc::hash_str(got)); if (any) mc::nontrivial();
	if (mc::tracing()) mc::note("\"" + show(t) + "\" -> \"" + show(got) + "\"");
}
int main(int argc, char** argv) {
	mc::Config c; c.property = "C31"; c.hang_s = 10;
	c.rule = "every concatenation of up to 6 (thorough 7) tokens out of braces, blanks, names and other text, and every string up to 9 characters over a 4-letter alphabet, times value assignments including values that look like templates; non-trivial = at least one placeholder substituted";
	c.assumptions = {"a placeholder is {{ name }} with blanks or tabs around a name of letters, digits and underscores"};
	static const std::vector<Lambda::HTML::TemplateProps> P = {
		{}, {{"a", "X"}, {"b1", ""}}, {{"a", "{{b1}}"}, {"b1", "{{a}}"}}, {{"a", "{{"}, {"b1", "}}"}, {"_", "{"}}, {{"a", "a}}"}, {"b1", "{{ a"}}};
	std::vector<mc::Scenario> s;
	s.push_back({"tokens", 0, [] { static const std::vector<string> T = {"{{", "}}", "a", "b1", " ", "{", "}", "-", "_"}; auto t = picktok(T, mc::thorough() ? 7 : 5); go(t, P[1 + mc::choose(4)]); }});
	s.push_back({"tokens-6", 0, [] { static const std::vector<string> T = {"{{", "}}", "a", "\t", "x "}; auto t = picktok(T, mc::thorough() ? 9 : 7); go(t, P[2]); }});
	s.push_back({"chars", 0, [] { auto t = pickstr("{}a ", mc::thorough() ? 10 : 8); go(t, P[mc::choose(2)]); }});
	s.push_back({"two-placeholders", 0, [] { static const std::vector<string> V = {"{{a}}", "{{ a }}", "{{b1}}", "{{\tzz}}", "{{a b1}}", "{{-a}}", "{{}}", "{{ }}"}, X = {"", "x", "{", "}", "{{", "}}", "\n"}; auto t = pick(X) + pick(V) + pick(X) + pick(V) + pick(X); go(t, P[mc::choose(5)]); }});
	s.push_back({"all-chars", 0, [] { string n(1, (char)mc::choose(256)); int form = mc::choose(3); auto t = "[{{" + string(form == 1 ? " a" : form == 2 ? "a" : "") + n + (form == 1 ? "a " : "") + "}}]"; go(t, P[1]); }});
	s.push_back({"long", 0, [] { int n = mc::choose(60), k = mc::choose(4); string t = pattern(n * 50, 0); for (int i = 0; i < k; i++) t.insert(t.size() / (i + 1), "{{a}}"); go(t, {{"a", pattern(mc::choose(3) * 1000, 5)}}); }});
	return mc::run(argc, argv, c, s);
}
