package crlw

import (
	"bytes"
	"encoding/csv"
	"io"
	"log"
	"math/rand"
	"strconv"
	"time"

	"vharness/lib/der"
)

var nullLog = log.New(io.Discard, "", 0)

// CA is a key with the certificate(s) it has.
type CA struct {
	Key  *der.Key
	Name []byte
	CN   string
	Cert []byte // DER
}

func (c *CA) ID() string { return c.Key.ID() }

func Root(cn string) *CA {
	k := der.NewKey()
	n := der.NameO("VH", cn)
	return &CA{k, n, cn, der.CACert(k, n, n, k, time.Now().AddDate(10, 0, 0))}
}

func (c *CA) Sub(cn string) *CA { return c.SubKey(cn, der.NewKey()) }

func (c *CA) SubKey(cn string, k *der.Key) *CA {
	n := der.NameO("VH", cn)
	return &CA{k, n, cn, der.CACert(k, n, c.Name, c.Key, time.Now().AddDate(5, 0, 0), der.EKUServer())}
}

// Row is one line of a CCADB report.
type Row struct {
	Cert    []byte // DER, or
	PEM     string // literal
	Type    string // Root Certificate, Intermediate Certificate
	Revoked string
	Full    string
	JSON    string
}

func RootRow(c *CA) Row { return Row{Cert: c.Cert, Type: "Root Certificate"} }
func SubRow(c *CA, full, json string) Row {
	return Row{Cert: c.Cert, Type: "Intermediate Certificate", Revoked: "Not Revoked", Full: full, JSON: json}
}

// JSONArray renders URLs the way the report does.
func JSONArray(urls []string) string {
	b := "["
	for i, u := range urls {
		if i > 0 {
			b += ", "
		}
		b += strconv.Quote(u)
	}
	return b + "]"
}

// Report renders rows as CSV, with extra columns, in a random column order.
func Report(r *rand.Rand, rows []Row) []byte {
	cols := []string{"X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA",
		"JSON_Array_of_Partitioned_CRLs", "CA_Owner", "Comments"}
	r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	if r.Intn(3) == 0 {
		w.UseCRLF = true
	}
	w.Write(cols)
	for _, row := range rows {
		p := row.PEM
		if p == "" {
			p = der.PEM(row.Cert)
		}
		var rec []string
		for _, c := range cols {
			switch c {
			case "X.509_Certificate_PEM":
				rec = append(rec, p)
			case "RecordType.Name":
				rec = append(rec, row.Type)
			case "Revocation_Status__c":
				rec = append(rec, row.Revoked)
			case "Full_CRL_Issued_By_This_CA":
				rec = append(rec, row.Full)
			case "JSON_Array_of_Partitioned_CRLs":
				rec = append(rec, row.JSON)
			case "CA_Owner":
				rec = append(rec, "Owner, \"x\"")
			default:
				rec = append(rec, "line\nbreak")
			}
		}
		w.Write(rec)
	}
	w.Flush()
	return b.Bytes()
}
