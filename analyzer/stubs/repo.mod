module github.com/samuel/go-dsp

go 1.17

require github.com/samuel/go-rtlsdr v0.0.0

replace github.com/samuel/go-rtlsdr => RTLDIR
