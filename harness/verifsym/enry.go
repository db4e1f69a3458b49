//sym:into ripsrc/verifsym

package verifsym

// LangContent and LangPath are what the language was last asked for.
var LangContent []byte
var LangPath string
var LangAsked int

// LangOf stands for the recognition of languages: unknown, or one that
// depends on the path.
func LangOf(path string) string {
	if len(path) == 0 {
		return ""
	}
	b := path[len(path)-1]
	if b >= 'm' && b <= 'p' {
		return ""
	}
	if b&1 == 0 {
		return "Go"
	}
	return "Java"
}

// VGetLanguage replaces the recognition of languages.
//
//sym:subst[lang] gopkg.in/src-d/enry.v1.GetLanguage
func VGetLanguage(filename string, content []byte) string {
	LangAsked++
	LangContent = content
	LangPath = filename
	return LangOf(filename)
}
