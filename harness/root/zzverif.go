package sevenzip

import (
	"io"

	"github.com/spf13/afero"
)

// VerifStream is the seekable stream of a folder.
type VerifStream interface {
	io.ReadCloser
	io.Seeker
	Size() int64
}

// VerifFolder is the stream of folder i, as the existing tests reach it.
func VerifFolder(r *Reader, i int) (VerifStream, error) {
	rc, _, _, err := r.folderReader(r.si, i)
	if err != nil {
		return nil, err
	}
	return rc, nil
}

// VerifOpen is the file system part of OpenReader.
func VerifOpen(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, error) {
	return openReader(fs, name)
}

// VerifFs stands in for the operating system's file system when set.
var VerifFs afero.Fs

func verifOsFs() afero.Fs {
	if VerifFs != nil {
		return VerifFs
	}
	return afero.NewOsFs()
}
