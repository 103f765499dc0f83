exec(open('/verif/tools/specs/c15base.py').read())
id='C15-expire-seen'
edits=[(f,'''		if time.Since(v.Created) > 5*time.Minute {
''','''		if v.Seen && time.Since(v.Created) > 5*time.Minute {
''')]
needs='a login attempt that is completed more than five minutes after it began'
breaks='login attempts do not expire'
