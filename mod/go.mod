module github.com/lestrrat-go/jsval

go 1.20

require (
	github.com/jessevdk/go-flags v1.4.0
	github.com/lestrrat-go/jspointer v0.0.0-20181205001929-82fadba7561c
	github.com/lestrrat-go/jsref v0.0.0-20181205001954-1b590508f37d
	github.com/lestrrat-go/jsschema v0.0.0-20181205002244-5c81c58ffcc3
	github.com/lestrrat-go/pdebug v0.0.0-20180220043849-39f9a71bcabe
	github.com/pkg/errors v0.8.1
	github.com/stretchr/testify v1.8.4
	golang.org/x/net v0.17.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/lestrrat-go/structinfo v0.0.0-20190212233437-acd51874663b // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/xeipuuv/gojsonschema v1.2.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
