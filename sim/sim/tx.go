//go:build go1.25

package sim

import (
	"fmt"
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/ethereum/go-ethereum/common"
)

func copyMinor(b *types.MinorBlock) *types.MinorBlock {
	d, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	r := new(types.MinorBlock)
	if err := serialize.DeserializeFromBytes(d, r); err != nil {
		panic(err)
	}
	return r
}

func copyRoot(b *types.RootBlock) *types.RootBlock {
	d, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	r := new(types.RootBlock)
	if err := serialize.DeserializeFromBytes(d, r); err != nil {
		panic(err)
	}
	return r
}

func copyTx(t *types.Transaction) *types.Transaction {
	d, err := serialize.SerializeToBytes(t)
	if err != nil {
		panic(err)
	}
	r := new(types.Transaction)
	if err := serialize.DeserializeFromBytes(d, r); err != nil {
		panic(err)
	}
	return r
}

// TxSpec is what a client asks for.
type TxSpec struct {
	From     *Acct
	FromKey  uint32
	To       *common.Address // nil: contract creation
	ToKey    uint32
	Value    *big.Int
	Gas      uint64
	Price    *big.Int
	Nonce    uint64
	Data     []byte
	GasToken uint64
	Token    uint64
	Network  uint32
}

func (w *World) Sign(t TxSpec) *types.Transaction {
	if t.GasToken == 0 {
		t.GasToken = w.QKC
	}
	if t.Token == 0 {
		t.Token = w.QKC
	}
	if t.Network == 0 {
		t.Network = 3
	}
	var e *types.EvmTransaction
	if t.To == nil {
		e = types.NewEvmContractCreation(t.Nonce, t.Value, t.Gas, t.Price, t.FromKey, t.ToKey, t.Network, 0, t.Data, t.GasToken, t.Token)
	} else {
		e = types.NewEvmTransaction(t.Nonce, *t.To, t.Value, t.Gas, t.Price, t.FromKey, t.ToKey, t.Network, 0, t.Data, t.GasToken, t.Token)
	}
	s, err := types.SignTx(e, types.MakeSigner(t.Network), t.From.Key)
	if err != nil {
		panic(err)
	}
	tx := &types.Transaction{TxType: types.EvmTx, EvmTx: s}
	w.Txs[tx.Hash()] = copyTx(tx)
	return tx
}

// NextNonce asks a cluster's pool.
func (c *Cluster) NextNonce(a *Acct, id uint32) (n uint64, err error) {
	s := c.Shard(id)
	if s == nil {
		return 0, fmt.Errorf("no such shard")
	}
	err = fmt.Errorf("no answer")
	c.SlaveOf(id).Do(time.Minute, func() { n, err = s.MinorBlockChain.GetPoolNonce(a.Recp) })
	return
}

// SendTx submits a transaction through the master, as the JSON-RPC server does.
func (c *Cluster) SendTx(t *types.Transaction) error {
	err := fmt.Errorf("no answer")
	c.M.Do(10*time.Minute, func() { err = c.M.Master.AddTransaction(copyTx(t)) })
	return err
}

func addrOf(a *Acct, key uint32) account.Address { return account.NewAddress(a.Recp, key) }
