module verif

go 1.23.0

require github.com/substrait-io/substrait-go/v8 v8.0.0

replace github.com/substrait-io/substrait-go/v8 => /repo
