package unitdb

import (
	"sync"
)

// vcFileSet opens the store's files of the given types in dir.
func vcFileSet(dir string, types ...int) (*_FileSet, error) {
	fs := &_FileSet{mu: new(sync.RWMutex)}
	for _, t := range types {
		f, err := newFile(dir, 1, _FileDesc{fileType: _FileType(t)})
		if err != nil {
			return nil, err
		}
		fs.list = append(fs.list, f)
	}
	return fs, nil
}
