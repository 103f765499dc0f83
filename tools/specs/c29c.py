id='C29-two-escapes'; prop='C29'; pkg='proxy'
edits=[('proxy/xfcc.go','''	s = strings.ReplaceAll(s, "\\\\", "\\\\\\\\")
	s = strings.ReplaceAll(s, `"`, `\\"`)
	if strings''','''	if !strings.Contains(s, `\\`) {
		s = strings.ReplaceAll(s, `"`, `\\"`)
	} else if !strings.Contains(s, `\\"`) {
		s = strings.ReplaceAll(s, `\\`, `\\\\`)
		s = strings.ReplaceAll(s, `"`, `\\"`)
	} // else the quotes are escaped already
	if strings''')]
demo='''
package proxy

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{`/CN=a`, `/CN=a";Hash=0`, `/CN=a\\";Hash=0`, `/CN=a\\\\";Hash=0`} {
		v := encodeXFCC(s)
		if v[0] != 34 {
			t.Fatalf("%q: %q is not quoted", s, v)
		}
		for i := 1; ; i++ {
			if i >= len(v) {
				t.Fatalf("%q: %q: no end", s, v)
			}
			if v[i] == 92 {
				i++
				continue
			}
			if v[i] == 34 {
				if i != len(v)-1 {
					t.Errorf("%q: %q ends early", s, v)
				}
				break
			}
		}
	}
}
'''
needs='A certificate subject with a backslash followed by a quote, as the string form of a name with a quote has.'
breaks='The value is not escaped and closes its quotes early; the rest of the name is read as other fields.'
