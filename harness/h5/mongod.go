package main

import (
	"encoding/binary"
	"io"
	"net"
	"sync"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// A server with the commands of MongoDB that the demo uses: it keeps the documents it is given, and selects
// from them with find.
type mongod struct {
	sync.Mutex
	addr string
	docs map[string][]bson.D
	// problem is the first thing the server did not understand.
	problem string
}

func startMongod() (*mongod, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	m := &mongod{addr: l.Addr().String(), docs: map[string][]bson.D{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go m.serve(c)
		}
	}()
	return m, nil
}

func (m *mongod) serve(c net.Conn) {
	defer c.Close()
	for {
		head := make([]byte, 16)
		if _, err := io.ReadFull(c, head); err != nil {
			return
		}
		n := binary.LittleEndian.Uint32(head)
		if n < 16 || n > 1<<24 {
			return
		}
		body := make([]byte, n-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		id, op := head[4:8], binary.LittleEndian.Uint32(head[12:])
		var reply bson.D
		switch op {
		case 2004: // OP_QUERY: flags, name of the collection, skip, number, query
			k := 4
			for k < len(body) && body[k] != 0 {
				k++
			}
			var q bson.D
			if k+9 > len(body) || bson.Unmarshal(body[k+9:], &q) != nil || len(q) == 0 {
				return
			}
			reply = m.command(q, nil)
			b, err := bson.Marshal(reply)
			if err != nil {
				return
			}
			out := make([]byte, 36, 36+len(b))
			binary.LittleEndian.PutUint32(out, uint32(36+len(b)))
			copy(out[8:], id)
			binary.LittleEndian.PutUint32(out[12:], 1)
			binary.LittleEndian.PutUint32(out[32:], 1)
			c.Write(append(out, b...))
		case 2013: // OP_MSG: flags, sections
			flags := binary.LittleEndian.Uint32(body)
			if flags&1 != 0 {
				body = body[:len(body)-4]
			}
			var cmd bson.D
			var seq []bson.D
			for k := 4; k < len(body); {
				kind := body[k]
				k++
				size := int(binary.LittleEndian.Uint32(body[k:]))
				part := body[k : k+size]
				k += size
				if kind == 0 {
					if bson.Unmarshal(part, &cmd) != nil {
						return
					}
					continue
				}
				j := 4
				for part[j] != 0 {
					j++
				}
				for j++; j < len(part); {
					size := int(binary.LittleEndian.Uint32(part[j:]))
					var d bson.D
					if bson.Unmarshal(part[j:j+size], &d) != nil {
						return
					}
					seq = append(seq, d)
					j += size
				}
			}
			if len(cmd) == 0 {
				return
			}
			reply = m.command(cmd, seq)
			if flags&2 != 0 {
				continue
			}
			b, err := bson.Marshal(reply)
			if err != nil {
				return
			}
			out := make([]byte, 21, 21+len(b))
			binary.LittleEndian.PutUint32(out, uint32(21+len(b)))
			copy(out[8:], id)
			binary.LittleEndian.PutUint32(out[12:], 2013)
			c.Write(append(out, b...))
		default:
			return
		}
	}
}

func get(d bson.D, key string) interface{} {
	for _, e := range d {
		if e.Key == key {
			return e.Value
		}
	}
	return nil
}

func (m *mongod) command(q bson.D, seq []bson.D) bson.D {
	m.Lock()
	defer m.Unlock()
	ok := bson.E{Key: "ok", Value: 1.0}
	db, _ := get(q, "$db").(string)
	coll, _ := q[0].Value.(string)
	name := db + "." + coll
	switch q[0].Key {
	case "isMaster", "ismaster", "hello":
		return bson.D{{Key: "ismaster", Value: true}, {Key: "maxBsonObjectSize", Value: int32(16777216)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)}, {Key: "maxWriteBatchSize", Value: int32(100000)},
			{Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(8)}, {Key: "readOnly", Value: false}, ok}
	case "drop":
		delete(m.docs, name)
	case "insert":
		if list, is := get(q, "documents").(bson.A); is {
			for _, d := range list {
				seq = append(seq, d.(bson.D))
			}
		}
		m.docs[name] = append(m.docs[name], seq...)
		return bson.D{{Key: "n", Value: int32(len(seq))}, ok}
	case "find":
		filter, _ := get(q, "filter").(bson.D)
		if why := understood(filter); why != "" {
			m.problem = why
			return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: why}, {Key: "code", Value: int32(2)}}
		}
		list := bson.A{}
		for _, d := range m.docs[name] {
			f := doc{}
			flatten(f, "", d)
			if find(filter, f) {
				list = append(list, d)
			}
		}
		return bson.D{{Key: "cursor", Value: bson.D{{Key: "firstBatch", Value: list}, {Key: "id", Value: int64(0)}, {Key: "ns", Value: name}}}, ok}
	case "endSessions", "killCursors", "ping", "listCollections":
	default:
		return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: "no such command: " + q[0].Key}, {Key: "code", Value: int32(59)}}
	}
	return bson.D{ok}
}

// understood tells what find does not know in a query.
func understood(q bson.D) string {
	if len(q) == 0 {
		return ""
	}
	if _, err := readMongo(q); err != nil {
		return err.Error()
	}
	return ""
}

// flatten makes the fields of a document and of the documents in it.
func flatten(out doc, prefix string, d bson.D) {
	for _, e := range d {
		switch v := e.Value.(type) {
		case bson.D:
			flatten(out, prefix+e.Key+".", v)
		case int32:
			out[prefix+e.Key] = float64(v)
		case int64:
			out[prefix+e.Key] = float64(v)
		case primitive.DateTime:
			out[prefix+e.Key] = v.Time()
		default:
			out[prefix+e.Key] = v
		}
	}
}
