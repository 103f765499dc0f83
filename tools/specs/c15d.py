exec(open('/verif/tools/specs/c15base.py').read())
id='C15-domain-suffix'
edits=[(f,'''(p.cfg.HostedDomain != "*" && claims.HostedDomain != p.cfg.HostedDomain)''','''(p.cfg.HostedDomain != "*" && !strings.HasSuffix(claims.HostedDomain, p.cfg.HostedDomain))''')]
needs='a hosted domain that ends like the configured one'
breaks='users of another hosted domain are accepted'
