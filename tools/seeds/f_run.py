# Demonstrations that run generated clients.
WR='\n\t"io/ioutil"\n\t"os/exec"\n\n\t"aqwari.net/xml/internal/gen"\n\t"aqwari.net/xml/wsdlgen"\n\t"aqwari.net/xml/xsdgen"\n'
WRSRC='''// run generates a client for a description and runs it with the given main
// function.
func run(doc, program string) {
	var cfg wsdlgen.Config
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.Option(wsdlgen.PackageName("main"))
	cfg.XSDOption(xsdgen.DefaultOptions...)
	cfg.XSDOption(xsdgen.PackageName("main"))
	write := func(name, text string) {
		if err := ioutil.WriteFile(name, []byte(text), 0666); err != nil {
			fail("%v", err)
		}
	}
	os.Mkdir("p", 0777)
	write("x.wsdl", doc)
	file, err := cfg.GenAST("x.wsdl")
	if err != nil {
		fail("%v", err)
	}
	src, err := gen.FormattedSource(file, "x.go")
	if err != nil {
		fail("%v", err)
	}
	write("p/client.go", string(src))
	write("p/main.go", program)
	write("p/go.mod", "module p\\n\\ngo 1.15\\n")
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = "p"
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		fail("%v\\n%s", err, out)
	}
}

'''
PROG='''package main

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"net/http"
	"os"
	"strings"
)

var _ = bytes.NewReader
var _ = context.Background
var _ = ioutil.ReadAll
var _ = strings.NewReader

type server func(*http.Request) *http.Response

func (s server) RoundTrip(r *http.Request) (*http.Response, error) { return s(r), nil }

type body struct {
	*strings.Reader
	closed bool
}

func (b *body) Close() error { b.closed = true; return nil }

func reply(s string) *http.Response {
	return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: &body{Reader: strings.NewReader(`<e:Envelope xmlns:e="http://schemas.xmlsoap.org/soap/envelope/"><e:Body>` + s + `</e:Body></e:Envelope>`)}}
}

func fail(f string, v ...interface{}) {
	fmt.Printf(f+"\\n", v...)
	os.Exit(1)
}

'''
WDOC='''<definitions xmlns="http://schemas.xmlsoap.org/wsdl/" xmlns:s="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:t="urn:t" xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:t">
<message name="in"><part name="a" type="xs:string"/></message><message name="out"><part name="r" type="xs:string"/></message>
<portType name="p"><operation name="%(op)s"><input message="t:in"/><output message="t:out"/></operation></portType>
<binding name="b" type="t:p"><s:binding transport="x" style="rpc"/><operation name="%(op)s"><s:operation soapAction="act"/><input><s:body use="literal" namespace="urn:t"/></input><output><s:body use="literal" namespace="urn:t"/></output></operation></binding>
<service name="s"><port name="q" binding="t:b"><s:address location="http://x/y"/></port></service></definitions>'''
def wrun(prog,op="Op"):
    return H%WR+WRSRC+'func main() {\n\trun(`'+WDOC%{"op":op}+'`, `'+(PROG+prog).replace("`","`+\"`\"+`")+'`)\n}\n'
FAULTDOC='''<definitions xmlns="http://schemas.xmlsoap.org/wsdl/" xmlns:s="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:t="urn:t" xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:t">
<types><xs:schema targetNamespace="urn:t" elementFormDefault="qualified"><xs:element name="Ask" type="xs:string"/><xs:element name="Fault" type="xs:string"/></xs:schema></types>
<message name="in"><part name="a" element="t:Ask"/></message><message name="out"><part name="r" element="t:Fault"/></message>
<portType name="p"><operation name="Op"><input message="t:in"/><output message="t:out"/></operation></portType>
<binding name="b" type="t:p"><s:binding transport="x"/><operation name="Op"><s:operation soapAction="act"/><input><s:body use="literal"/></input><output><s:body use="literal"/></output></operation></binding>
<service name="s"><port name="q" binding="t:b"><s:address location="http://x/y"/></port></service></definitions>'''
seed("fault-in-any-namespace","C32",
 [("wsdlgen/helper.go",'''`xml:\\"http://schemas.xmlsoap.org/soap/envelope/ Fault,omitempty\\"`''','''`xml:\\"Fault,omitempty\\"`''')],
 "a reply whose message element is called Fault, in the namespace of the service",
 "the reply is taken for a SOAP fault: the call fails",
 wrun('''func main() {
	c := &Client{HTTPClient: &http.Client{Transport: server(func(r *http.Request) *http.Response {
		return reply(`<m:Fault xmlns:m="urn:t">cracked</m:Fault>`)
	})}}
	got, err := c.Op(context.Background(), "x")
	if err != nil || fmt.Sprint(got) != "cracked" {
		fail("%v %v", got, err)
	}
}
''').replace(WDOC%{"op":"Op"},FAULTDOC))
seed("context-after-hook","C32",
 [("wsdlgen/helper.go",'''		req = req.WithContext(ctx)
		if c.RequestHook != nil {
			req = c.RequestHook(req)
		}
''','''		if c.RequestHook != nil {
			req = c.RequestHook(req)
		}
		req = req.WithContext(ctx)
''')],
 "a RequestHook that reads a value of the context of the call, or sets one",
 "the request the hook gets does not carry the context of the call",
 wrun('''type key struct{}

func main() {
	saw := ""
	c := &Client{
		HTTPClient: &http.Client{Transport: server(func(r *http.Request) *http.Response {
			return reply(`<m:OpResponse xmlns:m="urn:t"><r>y</r></m:OpResponse>`)
		})},
		RequestHook: func(r *http.Request) *http.Request {
			saw, _ = r.Context().Value(key{}).(string)
			return r
		},
	}
	_, err := c.Op(context.WithValue(context.Background(), key{}, "token"), "x")
	if err != nil || saw != "token" {
		fail("%v %q", err, saw)
	}
}
'''))
seed("close-after-hook","C32",
 [("wsdlgen/helper.go",'''		defer rsp.Body.Close()

		if c.ResponseHook != nil {
			rsp = c.ResponseHook(rsp)
		}
''','''		if c.ResponseHook != nil {
			rsp = c.ResponseHook(rsp)
		}
		defer rsp.Body.Close()
''')],
 "a ResponseHook that returns another response",
 "the body of the response of the server is never closed: its connection is lost",
 wrun('''func main() {
	b := &body{Reader: strings.NewReader("")}
	c := &Client{
		HTTPClient: &http.Client{Transport: server(func(r *http.Request) *http.Response {
			rsp := reply("")
			rsp.Body = b
			return rsp
		})},
		ResponseHook: func(r *http.Response) *http.Response {
			return reply(`<m:OpResponse xmlns:m="urn:t"><r>y</r></m:OpResponse>`)
		},
	}
	got, err := c.Op(context.Background(), "x")
	if err != nil || got != "y" || !b.closed {
		fail("%v %v closed %v", got, err, b.closed)
	}
}
'''))
