module github.com/WatchBeam/rtmp

go 1.23
