// Package rtl declares the part of github.com/samuel/go-rtlsdr/rtl that
// boripserver uses, so that it can be type-checked offline.
package rtl

type Device struct{ _ int }

func GetDeviceCount() int
func GetDeviceName(i int) string
func Open(i int) (*Device, error)

func (d *Device) Close() error
func (d *Device) GetCenterFreq() (uint, error)
func (d *Device) SetCenterFreq(f uint) error
func (d *Device) GetSampleRate() (int, error)
func (d *Device) SetSampleRate(r uint) error
func (d *Device) GetTunerGain() (int, error)
func (d *Device) SetTunerGain(g int) error
func (d *Device) SetTunerGainMode(manual bool) error
func (d *Device) SetAGCMode(on bool) error
func (d *Device) GetTunerGains() ([]int, error)
func (d *Device) GetXtalFreq() (rtlFreq, tunerFreq uint, err error)
func (d *Device) ResetBuffer() error
func (d *Device) ReadAsync(n, size int, f func([]byte) bool) error
func (d *Device) ReadAsyncUsingSync(n, size int, f func([]byte) bool) error
func (d *Device) CancelAsync() error
