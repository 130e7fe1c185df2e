module verif/harness

go 1.16

require (
	github.com/Shopify/sarama v1.28.0
	github.com/go-stack/stack v1.8.1 // indirect
	github.com/gorilla/websocket v1.4.2
	github.com/hamba/avro v1.6.6
	github.com/hashicorp/golang-lru v0.5.5-0.20210104140557-80c98217689d
	github.com/inconshreveable/log15 v0.0.0-20201112154412-8562bdadbbac
	github.com/klauspost/compress v1.13.6 // indirect
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/openrelayxyz/cardinal-rpc v1.1.0
	github.com/openrelayxyz/cardinal-types v1.0.0
	github.com/openrelayxyz/drumline v1.0.1
	github.com/rcrowley/go-metrics v0.0.0-20201227073835-cf1acfcdf475
	github.com/stretchr/testify v1.7.2 // indirect
	github.com/xdg/scram v1.0.3
	github.com/xdg/stringprep v1.0.3 // indirect
	golang.org/x/crypto v0.1.0 // indirect
	golang.org/x/sys v0.5.0 // indirect
	golang.org/x/text v0.7.0 // indirect
)

require github.com/openrelayxyz/cardinal-streams/v2 v2.0.0

replace github.com/openrelayxyz/cardinal-streams/v2 => /repo
