package h

import "net/http"

func request(accept string, has bool, cookies ...string) *http.Request {
	r := &http.Request{Header: http.Header{}}
	if has {
		r.Header["Accept-Language"] = []string{accept}
	}
	for _, c := range cookies {
		r.Header["Cookie"] = append(r.Header["Cookie"], c)
	}
	return r
}
