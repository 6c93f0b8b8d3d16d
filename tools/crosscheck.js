// Development-time: compares the reference segmenter with ICU's Intl.Segmenter
// (node with Unicode 17).  cd mon && go run ./cmd/crosscheck 200000 | node ../tools/crosscheck.js
// ICU's own tailorings are left out: dictionary scripts and the colon in words.
const rl = require('readline').createInterface({ input: process.stdin })
const KINDS = JSON.parse(process.env.KINDS || '{"graphemes":"grapheme","words":"word","sentences":"sentence"}')
let order = (process.env.ORDER || 'graphemes,words,sentences,phrases').split(',')
const seg = {}
for (const k in KINDS) seg[k] = new Intl.Segmenter('en', { granularity: KINDS[k] })
const dict = /[\p{Script=Han}\p{Script=Hiragana}\p{Script=Katakana}\p{Script=Thai}\p{Script=Lao}\p{Script=Khmer}\p{Script=Myanmar}\p{Script=Tai_Le}\p{Script=New_Tai_Lue}\p{Script=Tai_Tham}\p{Script=Tai_Viet}\p{Script=Ahom}\uac00-\ud7a3\u30fc\uff70\uff9e\uff9f\u3031-\u3035\u309b\u309c\u30a0:\ufe55\uff1a]/u
const st = {}
rl.on('line', l => {
  const [k, s, ends] = JSON.parse(l)
  const name = order[k]; const t = st[name] ||= { same: 0, skipped: 0, diff: 0, shown: 0 }
  if (name == 'words' && dict.test(s)) { t.skipped++; return }
  const want = []
  for (const x of seg[name].segment(s)) { want.push(Buffer.byteLength(s.slice(0, x.index + x.segment.length))) }
  if (want.length == ends?.length && want.every((v, i) => v == ends[i])) { t.same++; return }
  t.diff++
  if (t.shown++ < 15) console.log(name, [...s].map(c => c.codePointAt(0).toString(16)).join(' '), 'ref', ends.join(), 'icu', want.join())
})
rl.on('close', () => console.log(st))
