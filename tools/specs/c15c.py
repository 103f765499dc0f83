exec(open('/verif/tools/specs/c15base.py').read())
id='C15-verified-domain'
edits=[(f,'''	if claims.EmailVerified != nil && !*claims.EmailVerified {
''','''	if verified := claims.EmailVerified; verified != nil && !*verified && claims.HostedDomain == "" {
''')]
needs='a token with an unverified e-mail and a hosted domain'
breaks='unverified e-mail addresses are accepted'
