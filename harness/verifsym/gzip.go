//sym:into ripsrc/verifsym

package verifsym

import (
	"compress/gzip"
	"io"
)

// gzip by framing only: a header, blocks of plain data, a trailer written by
// Close. A stream that ends without its trailer reads as its data followed by
// an unexpected end, which is what the format guarantees.

type VGzipWriter struct {
	w      io.Writer
	began  bool
	buf    []byte
	closed bool
	err    error
}

func VGzipNewWriter(w io.Writer) *VGzipWriter { return &VGzipWriter{w: w} }

func VGzipNewWriterLevel(w io.Writer, level int) (*VGzipWriter, error) {
	return VGzipNewWriter(w), nil
}

func (z *VGzipWriter) out(b []byte) error {
	if z.err != nil {
		return z.err
	}
	_, z.err = z.w.Write(b)
	return z.err
}

func (z *VGzipWriter) begin() error {
	if z.began {
		return nil
	}
	z.began = true
	return z.out([]byte{0x1f, 0x8b})
}

func (z *VGzipWriter) Write(b []byte) (int, error) {
	if z.err != nil {
		return 0, z.err
	}
	if err := z.begin(); err != nil {
		return 0, err
	}
	z.buf = append(z.buf, b...)
	if len(z.buf) > 65536 {
		if err := z.flush(); err != nil {
			return 0, err
		}
	}
	return len(b), nil
}

func (z *VGzipWriter) flush() error {
	n := len(z.buf)
	if n == 0 {
		return z.err
	}
	b := append([]byte{1, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, z.buf...)
	z.buf = nil
	return z.out(b)
}

func (z *VGzipWriter) Flush() error {
	if z.err != nil {
		return z.err
	}
	if z.closed {
		return nil
	}
	if err := z.begin(); err != nil {
		return err
	}
	return z.flush()
}

func (z *VGzipWriter) Close() error {
	if z.err != nil {
		return z.err
	}
	if z.closed {
		return nil
	}
	if err := z.Flush(); err != nil {
		return err
	}
	z.closed = true
	return z.out([]byte{0})
}

type VGzipReader struct {
	r    io.Reader
	left int
	done bool
	err  error
}

func VGzipNewReader(r io.Reader) (*VGzipReader, error) {
	var h [2]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	if h[0] != 0x1f || h[1] != 0x8b {
		return nil, gzip.ErrHeader
	}
	return &VGzipReader{r: r}, nil
}

func (z *VGzipReader) Read(b []byte) (int, error) {
	if z.err != nil {
		return 0, z.err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if z.left == 0 {
		var h [4]byte
		if _, err := io.ReadFull(z.r, h[:1]); err != nil {
			return z.fail(err)
		}
		if h[0] == 0 {
			z.err = io.EOF
			return 0, z.err
		}
		if _, err := io.ReadFull(z.r, h[:]); err != nil {
			return z.fail(err)
		}
		z.left = int(h[0])<<24 | int(h[1])<<16 | int(h[2])<<8 | int(h[3])
	}
	if len(b) > z.left {
		b = b[:z.left]
	}
	n, err := z.r.Read(b)
	z.left -= n
	if err != nil && n == 0 {
		return z.fail(err)
	}
	return n, nil
}

func (z *VGzipReader) fail(err error) (int, error) {
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	z.err = err
	return 0, err
}

func (z *VGzipReader) Close() error { return nil }

// --- in place of compress/gzip under the checker

type gzwEnt struct {
	z *gzip.Writer
	v *VGzipWriter
}
type gzrEnt struct {
	z *gzip.Reader
	v *VGzipReader
}

var gzws []gzwEnt
var gzrs []gzrEnt

//sym:subst compress/gzip.NewWriter
func gzNewWriter(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	gzws = append(gzws, gzwEnt{z, VGzipNewWriter(w)})
	return z
}

//sym:subst compress/gzip.NewWriterLevel
func gzNewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) { return gzNewWriter(w), nil }

func gzw(z *gzip.Writer) *VGzipWriter {
	for _, e := range gzws {
		if e.z == z {
			return e.v
		}
	}
	return nil
}

func gzr(z *gzip.Reader) *VGzipReader {
	for _, e := range gzrs {
		if e.z == z {
			return e.v
		}
	}
	return nil
}

//sym:subst (*compress/gzip.Writer).Write
func gzWrite(z *gzip.Writer, b []byte) (int, error) { return gzw(z).Write(b) }

//sym:subst (*compress/gzip.Writer).Flush
func gzFlush(z *gzip.Writer) error { return gzw(z).Flush() }

//sym:subst (*compress/gzip.Writer).Close
func gzClose(z *gzip.Writer) error { return gzw(z).Close() }

//sym:subst compress/gzip.NewReader
func gzNewReader(r io.Reader) (*gzip.Reader, error) {
	v, err := VGzipNewReader(r)
	if err != nil {
		return nil, err
	}
	z := new(gzip.Reader)
	gzrs = append(gzrs, gzrEnt{z, v})
	return z, nil
}

//sym:subst (*compress/gzip.Reader).Read
func gzRead(z *gzip.Reader, b []byte) (int, error) { return gzr(z).Read(b) }

//sym:subst (*compress/gzip.Reader).Close
func gzRClose(z *gzip.Reader) error { return gzr(z).Close() }
