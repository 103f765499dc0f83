exec(open('/verif/tools/specs/c21base.py').read())
id='C21-first-good-cert'
edits=[('proxy/internal/ocspcache/ocsp.go','''		// Every cert in the chain is good.
		break
	}
''','''		// Every cert in the chain is good.
		return nil
	}
'''),('proxy/internal/ocspcache/ocsp.go','''		if err != nil || ocspResp.Status == ocsp.Unknown {
			continue
		}
		if err == nil {
			break
		}
	}
	return ocspResp, err
''','''		if err == nil && ocspResp.Status != ocsp.Unknown {
			break
		}
	}
	return ocspResp, err
'''),('proxy/internal/ocspcache/ocsp.go','''			case ocsp.Unknown:
				c.logger.Errorf("BAD OCSP: %q is unknown", cert.Subject.String())
				lastError = errOCSPUnknown
				continue nextChain
''','''			case ocsp.Unknown:
				c.logger.Errorf("BAD OCSP: %q is unknown", cert.Subject.String())
				lastError = errOCSPUnknown
				if i+1 < len(chain) {
					continue
				}
				continue nextChain
''')]
needs='a responder that answers unknown for a certificate that is not the last one'
breaks='a chain with an unknown certificate passes'
