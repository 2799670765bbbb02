package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C37: every configuration option reaches the setting it is meant for.
//
// The table says, for every kind of element, which setting of the library each option of the
// configuration file belongs to. For each kind the code that builds elements is followed with that
// kind chosen, and at every call into the library the value of each setting is traced back to the
// options it is made of.

func init() {
	register("C37", "every option of the configuration file arrives, unmixed and in the right unit, in the setting of the element it belongs to",
		runC37,
		"options are identified by their name in the configuration file, settings by the exported names of the library",
		"what an element does with a setting is decided by the properties of that element; here a setting must at least be read")
}

// One line per kind: domain kinds | setting<-option ...
//
//	a+b   the setting needs both options
//	a/b   either of them
//	?a    an option that may take part as well
//	@s    whole seconds, @ms milliseconds, @1 as it is
//	{k=V} what a keyword stands for
//	^p    all texts begin with p
const c37Table = `
group round-robin | NewRoundRobin#1<-resolvers
group fail-rotate | FailRotateOptions.ServfailError<-servfail-error FailRotateOptions.EmptyError<-empty-error NewFailRotate#2<-resolvers
group fail-back | FailBackOptions.ResetAfter<-reset-after@s FailBackOptions.ServfailError<-servfail-error FailBackOptions.EmptyError<-empty-error NewFailBack#2<-resolvers
group fastest | NewFastest#1<-resolvers
group load-balance | LoadBalanceOptions.FailurePenalty<-failure-penalty@s LoadBalanceOptions.ServfailError<-servfail-error LoadBalanceOptions.EmptyError<-empty-error NewLoadBalance#2<-resolvers
group random | RandomOptions.ResetAfter<-reset-after@s RandomOptions.ServfailError<-servfail-error RandomOptions.EmptyError<-empty-error NewRandom#2<-resolvers
group blocklist | BlocklistOptions.BlocklistDB<-blocklist/source?format BlocklistOptions.BlocklistRefresh<-refresh@s NewBlocklist#1<-resolvers NewStaticLoader#0<-blocklist NewHTTPLoader#0<-source NewFileLoader#0<-source
group blocklist-v2 | BlocklistOptions.BlocklistResolver<-blocklist-resolver BlocklistOptions.AllowListResolver<-allowlist-resolver BlocklistOptions.BlocklistDB<-blocklist/blocklist-source.source?blocklist-source?blocklist-format?blocklist-source.* BlocklistOptions.AllowlistDB<-allowlist/allowlist-source.source?allowlist-source?allowlist-format?allowlist-source.* BlocklistOptions.BlocklistRefresh<-blocklist-refresh@s BlocklistOptions.AllowlistRefresh<-allowlist-refresh@s NewEDNS0EDETemplate#0<-edns0-ede.code NewEDNS0EDETemplate#1<-edns0-ede.text BlocklistOptions.EDNS0EDETemplate<-edns0-ede.code+edns0-ede.text NewBlocklist#1<-resolvers NewStaticLoader#0<-blocklist/allowlist NewHTTPLoader#0<-blocklist-source.source/allowlist-source.source NewFileLoader#0<-blocklist-source.source/allowlist-source.source HTTPLoaderOptions.CacheDir<-blocklist-source.cache-dir/allowlist-source.cache-dir HTTPLoaderOptions.AllowFailure<-blocklist-source.allow-failure/allowlist-source.allow-failure FileLoaderOptions.AllowFailure<-blocklist-source.allow-failure/allowlist-source.allow-failure
group replace | NewReplace#2<-replace NewReplace#1<-resolvers
group ttl-modifier | TTLModifierOptions.MinTTL<-ttl-min@1 TTLModifierOptions.MaxTTL<-ttl-max@1 TTLModifierOptions.SelectFunc<-ttl-select{lowest=TTLSelectLowest,highest=TTLSelectHighest,average=TTLSelectAverage,first=TTLSelectFirst,last=TTLSelectLast,random=TTLSelectRandom} NewTTLModifier#1<-resolvers
group truncate-retry | NewTruncateRetry#1<-resolvers NewTruncateRetry#2<-retry-resolver
group request-dedup | NewRequestDedup#1<-resolvers
group fastest-tcp | FastestTCPOptions.Port<-port@1 FastestTCPOptions.WaitAll<-wait-all FastestTCPOptions.SuccessTTLMin<-success-ttl-min@1 NewFastestTCP#1<-resolvers
group ecs-modifier | NewECSModifier#2<-ecs-op?ecs-address?ecs-prefix4?ecs-prefix6{add=ECSModifierAdd,add-if-missing=ECSModifierAddIfMissing,delete=ECSModifierDelete,privacy=ECSModifierPrivacy} ECSModifierAdd#0<-ecs-address ECSModifierAdd#1<-ecs-prefix4@1 ECSModifierAdd#2<-ecs-prefix6@1 ECSModifierAddIfMissing#0<-ecs-address ECSModifierAddIfMissing#1<-ecs-prefix4@1 ECSModifierAddIfMissing#2<-ecs-prefix6@1 ECSModifierPrivacy#0<-ecs-prefix4@1 ECSModifierPrivacy#1<-ecs-prefix6@1 NewECSModifier#1<-resolvers
group edns0-modifier | NewEDNS0Modifier#2<-edns0-op?edns0-code?edns0-data{add=EDNS0ModifierAdd,delete=EDNS0ModifierDelete} EDNS0ModifierAdd#0<-edns0-code@1 EDNS0ModifierAdd#1<-edns0-data EDNS0ModifierDelete#0<-edns0-code@1 NewEDNS0Modifier#1<-resolvers
group syslog | SyslogOptions.Network<-network SyslogOptions.Address<-address SyslogOptions.Priority<-priority{emergency=0,alert=1,critical=2,error=3,warning=4,notice=5,info=6,debug=7} SyslogOptions.Tag<-tag SyslogOptions.LogRequest<-log-request SyslogOptions.LogResponse<-log-response SyslogOptions.Verbose<-verbose NewSyslog#1<-resolvers
group cache | CacheOptions.GCPeriod<-gc-period@s CacheOptions.Capacity<-cache-size@1 CacheOptions.NegativeTTL<-cache-negative-ttl@1 CacheOptions.CacheRcodeMaxTTL<-cache-rcode-max-ttl CacheOptions.ShuffleAnswerFunc<-cache-answer-shuffle{random=AnswerShuffleRandom,round-robin=AnswerShuffleRoundRobin} CacheOptions.HardenBelowNXDOMAIN<-cache-harden-below-nxdomain CacheOptions.FlushQuery<-cache-flush-query CacheOptions.PrefetchTrigger<-cache-prefetch-trigger@1 CacheOptions.PrefetchEligible<-cache-prefetch-eligible@1 CacheOptions.Backend<-backend?backend.* MemoryBackendOptions.Capacity<-backend.size@1 MemoryBackendOptions.GCPeriod<-backend.gc-period@s MemoryBackendOptions.Filename<-backend.filename MemoryBackendOptions.SaveInterval<-backend.save-interval@s RedisBackendOptions.RedisOptions.Network<-backend.redis-network RedisBackendOptions.RedisOptions.Addr<-backend.redis-address RedisBackendOptions.RedisOptions.Username<-backend.redis-username RedisBackendOptions.RedisOptions.Password<-backend.redis-password RedisBackendOptions.RedisOptions.DB<-backend.redis-db@1 RedisBackendOptions.RedisOptions.MaxRetries<-backend.redis-max-retries@1 RedisBackendOptions.RedisOptions.MinRetryBackoff<-backend.redis-min-retry-backoff@ms RedisBackendOptions.RedisOptions.MaxRetryBackoff<-backend.redis-max-retry-backoff@ms RedisBackendOptions.KeyPrefix<-backend.redis-key-prefix RedisBackendOptions.SyncSet<-backend.redis-sync-set NewCache#1<-resolvers
group prefetch | PrefetchOptions.PrefetchWindow<-prefetch-window@1 PrefetchOptions.PrefetchThreshold<-prefetch-threshold@1 PrefetchOptions.PrefetchCacheSize<-prefetch-cache-size@1 PrefetchOptions.PrefetchMaxItems<-prefetch-max-items@1 NewPrefetch#1<-resolvers
group response-blocklist-ip,response-blocklist-cidr | ResponseBlocklistIPOptions.BlocklistResolver<-blocklist-resolver ResponseBlocklistIPOptions.BlocklistDB<-blocklist/blocklist-source.source?blocklist-source?blocklist-format?location-db?blocklist-source.* ResponseBlocklistIPOptions.BlocklistRefresh<-blocklist-refresh@s ResponseBlocklistIPOptions.Filter<-filter ResponseBlocklistIPOptions.Inverted<-inverted NewEDNS0EDETemplate#0<-edns0-ede.code NewEDNS0EDETemplate#1<-edns0-ede.text ResponseBlocklistIPOptions.EDNS0EDETemplate<-edns0-ede.code+edns0-ede.text NewResponseBlocklistIP#1<-resolvers NewStaticLoader#0<-blocklist NewHTTPLoader#0<-blocklist-source.source NewFileLoader#0<-blocklist-source.source HTTPLoaderOptions.CacheDir<-blocklist-source.cache-dir HTTPLoaderOptions.AllowFailure<-blocklist-source.allow-failure FileLoaderOptions.AllowFailure<-blocklist-source.allow-failure NewGeoIPDB#2<-location-db NewASNDB#2<-location-db
group response-blocklist-name | ResponseBlocklistNameOptions.BlocklistResolver<-blocklist-resolver ResponseBlocklistNameOptions.BlocklistDB<-blocklist/blocklist-source.source?blocklist-source?blocklist-format?blocklist-source.* ResponseBlocklistNameOptions.BlocklistRefresh<-blocklist-refresh@s ResponseBlocklistNameOptions.Inverted<-inverted NewResponseBlocklistName#1<-resolvers NewStaticLoader#0<-blocklist NewHTTPLoader#0<-blocklist-source.source NewFileLoader#0<-blocklist-source.source HTTPLoaderOptions.CacheDir<-blocklist-source.cache-dir HTTPLoaderOptions.AllowFailure<-blocklist-source.allow-failure FileLoaderOptions.AllowFailure<-blocklist-source.allow-failure
group client-blocklist | ClientBlocklistOptions.BlocklistResolver<-blocklist-resolver ClientBlocklistOptions.BlocklistDB<-blocklist/blocklist-source.source?blocklist-source?blocklist-format?location-db?blocklist-source.* ClientBlocklistOptions.BlocklistRefresh<-blocklist-refresh@s ClientBlocklistOptions.UseECS<-use-ecs NewClientBlocklist#1<-resolvers NewStaticLoader#0<-blocklist NewHTTPLoader#0<-blocklist-source.source NewFileLoader#0<-blocklist-source.source HTTPLoaderOptions.CacheDir<-blocklist-source.cache-dir HTTPLoaderOptions.AllowFailure<-blocklist-source.allow-failure FileLoaderOptions.AllowFailure<-blocklist-source.allow-failure NewGeoIPDB#2<-location-db NewASNDB#2<-location-db
group static-responder,static-template | StaticResolverOptions.Answer<-answer StaticResolverOptions.NS<-ns StaticResolverOptions.Extra<-extra StaticResolverOptions.RCode<-rcode@1 StaticResolverOptions.Truncate<-truncate StaticResolverOptions.EDNS0EDETemplate<-edns0-ede.code+edns0-ede.text NewEDNS0EDETemplate#0<-edns0-ede.code NewEDNS0EDETemplate#1<-edns0-ede.text
group response-minimize | NewResponseMinimize#1<-resolvers
group response-collapse | ResponseCollapseOptions.NullRCode<-null-rcode@1 NewResponseCollapse#1<-resolvers
group rate-limiter | RateLimiterOptions.Requests<-requests@1 RateLimiterOptions.Window<-window@1 RateLimiterOptions.Prefix4<-prefix4@1 RateLimiterOptions.Prefix6<-prefix6@1 RateLimiterOptions.LimitResolver<-limit-resolver NewRateLimiter#1<-resolvers
group query-log | QueryLogResolverOptions.OutputFile<-output-file QueryLogResolverOptions.OutputFormat<-output-format NewQueryLogResolver#1<-resolvers
group lua | LuaOptions.Script<-lua-script/lua-script-source LuaOptions.Concurrency<-lua-concurrency@1 LuaOptions.NoSandbox<-lua-no-sandbox NewLua#2<-resolvers
group dnssec-validator | DNSSECValidatorOptions.TrustAnchors<-dnssec-trust-anchors?dnssec-trust-anchors.* DNSSECValidatorOptions.TrustAnchorURL<-dnssec-trust-anchor-url DNSSECValidatorOptions.LogOnly<-dnssec-log-only TrustAnchor.Owner<-dnssec-trust-anchors.owner TrustAnchor.KeyTag<-dnssec-trust-anchors.key-tag@1 TrustAnchor.Algorithm<-dnssec-trust-anchors.algorithm@1 TrustAnchor.DigestType<-dnssec-trust-anchors.digest-type@1 TrustAnchor.Digest<-dnssec-trust-anchors.digest NewDNSSECValidator#1<-resolvers
group dns64 | DNS64Options.Prefixes<-dns64-prefix NewDNS64#1<-resolvers
router * | NewRoute#0<-routes.name NewRoute#1<-routes.class NewRoute#2<-routes.types/routes.type NewRoute#3<-routes.weekdays NewRoute#4<-routes.before NewRoute#5<-routes.after NewRoute#6<-routes.source NewRoute#7<-routes.ecs-source NewRoute#8<-routes.doh-path NewRoute#9<-routes.listener NewRoute#10<-routes.servername NewRoute#11<-routes.resolver Invert#1<-routes.invert
resolver doq,dot,doh,odoh | TLSClientConfig#0<-ca TLSClientConfig#1<-client-crt TLSClientConfig#2<-client-key TLSClientConfig#3<-server-name
resolver doq | NewDoQClient#1<-address DoQClientOptions.BootstrapAddr<-bootstrap-address DoQClientOptions.LocalAddr<-local-address DoQClientOptions.LocalAddrV4<-local-address-v4 DoQClientOptions.LocalAddrV6<-local-address-v6 DoQClientOptions.TLSConfig<-ca+client-crt+client-key+server-name DoQClientOptions.QueryTimeout<-query-timeout@s DoQClientOptions.Use0RTT<-enable-0rtt DoQClientOptions.NetNS.Name<-netns DoQClientOptions.NetNS.XSocket<-xsocket DoQClientOptions.SocketOptions.FWMark<-fwmark@1 DoQClientOptions.SocketOptions.BindInterface<-bind-if
resolver dot | NewDoTClient#1<-address DoTClientOptions.BootstrapAddr<-bootstrap-address DoTClientOptions.LocalAddr<-local-address DoTClientOptions.LocalAddrV4<-local-address-v4 DoTClientOptions.LocalAddrV6<-local-address-v6 DoTClientOptions.TLSConfig<-ca+client-crt+client-key+server-name DoTClientOptions.QueryTimeout<-query-timeout@s DoTClientOptions.NetNS.Name<-netns DoTClientOptions.NetNS.XSocket<-xsocket DoTClientOptions.SocketOptions.FWMark<-fwmark@1 DoTClientOptions.SocketOptions.BindInterface<-bind-if DoTClientOptions.Dialer<-socks5-address?*
resolver dtls | DTLSClientConfig#0<-ca DTLSClientConfig#1<-client-crt DTLSClientConfig#2<-client-key NewDTLSClient#1<-address DTLSClientOptions.BootstrapAddr<-bootstrap-address DTLSClientOptions.LocalAddr<-local-address DTLSClientOptions.LocalAddrV4<-local-address-v4 DTLSClientOptions.LocalAddrV6<-local-address-v6 DTLSClientOptions.DTLSConfig<-ca+client-crt+client-key DTLSClientOptions.UDPSize<-edns0-udp-size@1 DTLSClientOptions.QueryTimeout<-query-timeout@s DTLSClientOptions.NetNS.Name<-netns DTLSClientOptions.NetNS.XSocket<-xsocket DTLSClientOptions.SocketOptions.FWMark<-fwmark@1 DTLSClientOptions.SocketOptions.BindInterface<-bind-if
resolver doh,odoh | DoHClientOptions.Method<-doh.method DoHClientOptions.TLSConfig<-ca+client-crt+client-key+server-name DoHClientOptions.BootstrapAddr<-bootstrap-address DoHClientOptions.Transport<-transport DoHClientOptions.LocalAddr<-local-address DoHClientOptions.LocalAddrV4<-local-address-v4 DoHClientOptions.LocalAddrV6<-local-address-v6 DoHClientOptions.QueryTimeout<-query-timeout@s DoHClientOptions.IdleTimeout<-doh.idle-timeout@s DoHClientOptions.NetNS.Name<-netns DoHClientOptions.NetNS.XSocket<-xsocket DoHClientOptions.SocketOptions.FWMark<-fwmark@1 DoHClientOptions.SocketOptions.BindInterface<-bind-if
resolver doh | NewDoHClient#1<-address DoHClientOptions.Use0RTT<-enable-0rtt DoHClientOptions.Dialer<-socks5-address?*
resolver odoh | NewODoHClient#1<-address NewODoHClient#2<-target NewODoHClient#3<-target-config
resolver tcp,udp | NewDNSClient#1<-address NewDNSClient#2<-protocol DNSClientOptions.LocalAddr<-local-address DNSClientOptions.LocalAddrV4<-local-address-v4 DNSClientOptions.LocalAddrV6<-local-address-v6 DNSClientOptions.UDPSize<-edns0-udp-size@1 DNSClientOptions.QueryTimeout<-query-timeout@s DNSClientOptions.NetNS.Name<-netns DNSClientOptions.NetNS.XSocket<-xsocket DNSClientOptions.SocketOptions.FWMark<-fwmark@1 DNSClientOptions.SocketOptions.BindInterface<-bind-if DNSClientOptions.Dialer<-socks5-address?*
resolver dot,doh,tcp,udp | NewSocks5Dialer#0<-socks5-address Socks5DialerOptions.Username<-socks5-username Socks5DialerOptions.Password<-socks5-password Socks5DialerOptions.ResolveLocal<-socks5-resolve-local Socks5DialerOptions.LocalAddr<-local-address Socks5DialerOptions.LocalAddrV4<-local-address-v4 Socks5DialerOptions.LocalAddrV6<-local-address-v6 Socks5DialerOptions.NetNS.Name<-netns Socks5DialerOptions.NetNS.XSocket<-xsocket Socks5DialerOptions.SocketOptions.FWMark<-fwmark@1 Socks5DialerOptions.SocketOptions.BindInterface<-bind-if
listener tcp,udp,dot,dtls,doh,doq,odoh,admin | ListenOptions.AllowedNet<-allowed-net ListenOptions.NetNS.Name<-netns ListenOptions.NetNS.XSocket<-xsocket ListenOptions.SocketOptions.FWMark<-fwmark@1 ListenOptions.SocketOptions.BindInterface<-bind-if
listener tcp | NewDNSListener#1<-address NewDNSListener#2<-ip-version^tcp NewDNSListener#4<-resolver
listener udp | NewDNSListener#1<-address NewDNSListener#2<-ip-version^udp NewDNSListener#4<-resolver
listener dot | NewDoTListener#1<-address NewDoTListener#2<-ip-version^tcp NewDoTListener#4<-resolver DoTListenerOptions.TLSConfig<-ca+server-crt+server-key+mutual-tls
listener dtls | NewDTLSListener#1<-address NewDTLSListener#3<-resolver DTLSListenerOptions.DTLSConfig<-ca+server-crt+server-key+mutual-tls DTLSServerConfig#0<-ca DTLSServerConfig#1<-server-crt DTLSServerConfig#2<-server-key DTLSServerConfig#3<-mutual-tls
listener doh | NewDoHListener#1<-address NewDoHListener#3<-resolver DoHListenerOptions.TLSConfig<-ca+server-crt+server-key+mutual-tls?no-tls DoHListenerOptions.Transport<-transport DoHListenerOptions.HTTPProxyNet<-frontend.trusted-proxy DoHListenerOptions.NoTLS<-no-tls
listener doq | NewQUICListener#1<-address NewQUICListener#3<-resolver DoQListenerOptions.TLSConfig<-ca+server-crt+server-key+mutual-tls
listener odoh | NewODoHListener#1<-address NewODoHListener#3<-resolver ODoHListenerOptions.TLSConfig<-ca+server-crt+server-key+mutual-tls ODoHListenerOptions.KeySeed<-key-seed ODoHListenerOptions.OdohMode<-odoh-mode ODoHListenerOptions.AllowDoH<-allow-doh
listener admin | NewAdminListener#1<-address AdminListenerOptions.TLSConfig<-ca+server-crt+server-key+mutual-tls AdminListenerOptions.Transport<-transport
listener dot,doh,doq,odoh,admin | TLSServerConfig#0<-ca TLSServerConfig#1<-server-crt TLSServerConfig#2<-server-key TLSServerConfig#3<-mutual-tls
`

// Which lists are read in which format: list constructor -> keywords.
var c37Formats = map[string][]string{
	"NewRegexpDB": {"regexp", ""}, "NewDomainDB": {"domain"}, "NewDomainSubdomainDB": {"domain-subdomain"}, "NewHostsDB": {"hosts"}, "NewMACDB": {"mac"},
	"NewCidrDB": {"cidr", ""}, "NewGeoIPDB": {"location"}, "NewASNDB": {"asn"},
}

type c37Row struct {
	sink   string // Type.Field.Field or Func#n
	need   [][]string
	allow  []string
	scale  int64
	words  map[string]string
	prefix string
}

func (r *c37Row) keys() []string {
	var out []string
	for _, alt := range r.need {
		out = append(out, alt...)
	}
	return out
}

type c37Kind struct {
	domain, kind string
	rows         []*c37Row
}

func c37Parse() []*c37Kind {
	var out []*c37Kind
	get := func(d, k string) *c37Kind {
		for _, x := range out {
			if x.domain == d && x.kind == k {
				return x
			}
		}
		x := &c37Kind{domain: d, kind: k}
		out = append(out, x)
		return x
	}
	for _, line := range strings.Split(c37Table, "\n") {
		head, rest, ok := strings.Cut(line, "|")
		if !ok {
			continue
		}
		h := strings.Fields(head)
		var rows []*c37Row
		for _, f := range strings.Fields(rest) {
			sink, src, _ := strings.Cut(f, "<-")
			r := &c37Row{sink: sink}
			if i := strings.IndexByte(src, '{'); i >= 0 {
				r.words = map[string]string{}
				for _, w := range strings.Split(strings.Trim(src[i:], "{}"), ",") {
					k, v, _ := strings.Cut(w, "=")
					r.words[k] = v
				}
				src = src[:i]
			}
			src, r.prefix, _ = strings.Cut(src, "^")
			src, unit, _ := strings.Cut(src, "@")
			r.scale = map[string]int64{"s": 1e9, "ms": 1e6, "1": 1}[unit]
			parts := strings.Split(src, "?")
			r.allow = parts[1:]
			for _, a := range strings.Split(parts[0], "/") {
				r.need = append(r.need, strings.Split(a, "+"))
			}
			rows = append(rows, r)
		}
		for _, k := range strings.Split(h[1], ",") {
			x := get(h[0], k)
			x.rows = append(x.rows, rows...)
		}
	}
	return out
}

type c37 struct {
	p *Prog
	r *Report
	// structs of the configuration file
	structs map[*types.Named]bool
	anon    []*types.Struct
	domains map[*types.Named]string
	root    *types.Named
}

// c37Config finds the type that the configuration file is decoded into.
func c37Config(p *Prog) *types.Named {
	for _, fn := range p.funcs {
		if fn.Pkg != p.cmd {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !strings.Contains(calleeName(c.Common()), "BurntSushi/toml") {
					continue
				}
				for _, a := range c.Common().Args {
					if m, ok := a.(*ssa.MakeInterface); ok {
						if pt, ok := m.X.Type().Underlying().(*types.Pointer); ok {
							if n, ok := pt.Elem().(*types.Named); ok && isStruct(n) && n.Obj().Pkg() == p.cmd.Pkg {
								return n
							}
						}
					}
				}
			}
		}
	}
	return nil
}

func c37New(p *Prog, r *Report) *c37 {
	c := &c37{p: p, r: r, structs: map[*types.Named]bool{}, domains: map[*types.Named]string{}}
	c.root = c37Config(p)
	if c.root == nil {
		return nil
	}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch x := t.(type) {
		case *types.Pointer:
			walk(x.Elem())
		case *types.Slice:
			walk(x.Elem())
		case *types.Map:
			walk(x.Elem())
		case *types.Struct:
			c.anon = append(c.anon, x)
			for i := 0; i < x.NumFields(); i++ {
				walk(x.Field(i).Type())
			}
		case *types.Named:
			s, ok := x.Underlying().(*types.Struct)
			if !ok || c.structs[x] || x.Obj().Pkg() == nil || !strings.HasPrefix(x.Obj().Pkg().Path(), modPath) {
				return
			}
			c.structs[x] = true
			for i := 0; i < s.NumFields(); i++ {
				walk(s.Field(i).Type())
			}
		}
	}
	walk(c.root)
	s := c.root.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			if n, ok := deref(m.Elem()).(*types.Named); ok {
				c.domains[n] = strings.TrimSuffix(c37Tag(s, i), "s")
			}
		}
	}
	return c
}

func c37Tag(s *types.Struct, i int) string {
	if t := reflect.StructTag(s.Tag(i)).Get("toml"); t != "" {
		t, _, _ = strings.Cut(t, ",")
		return t
	}
	return strings.ToLower(s.Field(i).Name())
}

// structOf returns the configuration struct that a term's type is or points to.
func (c *c37) structOf(t types.Type) (*types.Struct, *types.Named) {
	if t == nil {
		return nil, nil
	}
	t = deref(t)
	if n, ok := t.(*types.Named); ok {
		if c.structs[n] {
			return n.Underlying().(*types.Struct), n
		}
		return nil, nil
	}
	if s, ok := t.(*types.Struct); ok {
		for _, a := range c.anon {
			if types.Identical(a, s) {
				return s, nil
			}
		}
	}
	return nil, nil
}

// key returns the option that is read by a term, "" if it is not one.
func (c *c37) key(t *Term) string {
	switch t.op {
	case "ld":
		if t.args[0].op == "fa" {
			return c.key(t.args[0])
		}
		return ""
	case "vf", "fa":
		s, n := c.structOf(t.args[0].typ)
		if s == nil {
			return ""
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != t.s {
				continue
			}
			k := c37Tag(s, i)
			if n == c.root {
				return ""
			}
			if n != nil && c.domains[n] != "" {
				return k
			}
			if b := c.base(t.args[0], 0); b != "" {
				return b + "." + k
			}
			return k
		}
	}
	return ""
}

// base is the option that holds a struct.
func (c *c37) base(t *Term, depth int) string {
	if depth > 12 {
		return ""
	}
	if k := c.key(t); k != "" {
		return k
	}
	switch t.op {
	case "ld", "ia", "vi", "ext", "next", "range", "lookup", "slice", "vf", "fa", "conv":
		return c.base(t.args[0], depth+1)
	}
	return ""
}

// keys collects the options a value is made of.
func (c *c37) keys(e *Engine, t *Term) map[string]bool {
	out := map[string]bool{}
	var skip map[*Term]bool
	e.T.walk(t, func(x *Term) bool {
		if skip[x] {
			return false
		}
		if k := c.key(x); k != "" {
			out[k] = true
			// the struct around it is not part of the value
			if skip == nil {
				skip = map[*Term]bool{}
			}
			return false
		}
		return true
	})
	return out
}

// made stands for something built from the options in t, however it was built.
func (c *c37) made(e *Engine, t *Term) *Term {
	var args []*Term
	done := map[*Term]bool{}
	e.T.walk(t, func(x *Term) bool {
		if c.key(x) == "" {
			return true
		}
		if !done[x] {
			done[x] = true
			args = append(args, x)
		}
		return false
	})
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	return e.T.mk("call", "made", t.typ, false, args...)
}

// coef returns what the option k is multiplied with in t.
func (c *c37) coef(t *Term, k string) (int64, bool) {
	if c.key(t) == k {
		return 1, true
	}
	switch t.op {
	case "conv":
		return c.coef(t.args[len(t.args)-1], k)
	case "ld":
		return c.coef(t.args[0], k)
	case "bin":
		if t.s != "*" {
			return 0, false
		}
		for i := 0; i < 2; i++ {
			if n, ok := t.args[i].intv(); ok {
				if m, ok := c.coef(t.args[1-i], k); ok {
					return n * m, true
				}
			}
		}
	}
	return 0, false
}

func (c *c37) inRootFn(fn *ssa.Function) bool {
	return fn != nil && fn.Pkg == c.p.root && fn.Object() != nil && fn.Object().Exported()
}

// within finds the values of a struct type inside a value.
func (c *c37) within(e *Engine, st *State, v *Term, typ types.Type, name string, depth int) []*Term {
	if v == nil || typ == nil || depth > 2 {
		return nil
	}
	if pt, ok := typ.Underlying().(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() == c.p.root.Pkg && n.Obj().Name() == name && isStruct(n) {
			return []*Term{e.load(st, v, n)}
		}
		return nil
	}
	n, ok := typ.(*types.Named)
	if !ok || n.Obj().Pkg() != c.p.root.Pkg {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n.Obj().Name() == name {
		return []*Term{v}
	}
	var out []*Term
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().(*types.Named); ok && isStruct(s.Field(i).Type()) {
			out = append(out, c.within(e, st, e.vf(st, v, s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type(), name, depth+1)...)
		}
	}
	return out
}

// at follows a path of fields into a value.
func (c *c37) at(e *Engine, st *State, v *Term, typ types.Type, path []string) *Term {
	for _, f := range path {
		if v.isNil() {
			return v
		}
		s, ok := deref(typ).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var ft types.Type
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				ft = s.Field(i).Type()
			}
		}
		if ft == nil {
			return nil
		}
		if _, ok := typ.Underlying().(*types.Pointer); ok {
			v = e.load(st, e.fa(v, f, types.NewPointer(ft)), ft)
		} else {
			v = e.vf(st, v, f, ft)
		}
		typ = ft
	}
	return v
}

func c37Matches(pat, k string) bool {
	return pat == k || pat == "*" || strings.HasSuffix(pat, ".*") && strings.HasPrefix(k, strings.TrimSuffix(pat, "*"))
}

func (c *c37) judge(e *Engine, st *State, k *c37Kind, row *c37Row, v *Term, pos token.Pos) string {
	keys := c.keys(e, v)
	need := row.keys()
	for x := range keys {
		ok := false
		for _, n := range append(append([]string{}, need...), row.allow...) {
			ok = ok || c37Matches(n, x)
		}
		if !ok {
			return fmt.Sprintf("takes its value from option %q", x)
		}
	}
	any := false
	for _, alt := range row.need {
		all := true
		for _, n := range alt {
			all = all && keys[n]
		}
		any = any || all
	}
	if row.words != nil {
		for w, want := range row.words {
			if !has(st, "is:"+need[0]+"="+w) {
				continue
			}
			got := ""
			e.T.walk(v, func(x *Term) bool {
				if got == "" && (x.op == "fn" || x.op == "closure") && x.fn != nil {
					got = x.fn.Name()
				} else if got == "" && x.op == "call" {
					n := x.callName()
					got = n[strings.LastIndexByte(n, '.')+1:]
				}
				return got == ""
			})
			if n, ok := v.intv(); ok {
				got = fmt.Sprint(n)
			}
			if got != want {
				return fmt.Sprintf("is %s for keyword %q", cmpOr(got, "something else"), w)
			}
		}
		return ""
	}
	if row.prefix != "" {
		bad := ""
		e.T.walk(v, func(x *Term) bool {
			if s, ok := x.str(); ok && !strings.HasPrefix(s, row.prefix) {
				bad = s
			}
			return true
		})
		if bad != "" {
			return fmt.Sprintf("is %q", bad)
		}
	}
	if any {
		if row.scale != 0 {
			if n, ok := c.coef(v, need[0]); ok && n != row.scale {
				return fmt.Sprintf("is option %q times %d rather than %d", need[0], n, row.scale)
			}
		}
		return ""
	}
	// a fixed value, chosen by what the option says
	for _, n := range append(append([]string{}, need...), row.allow...) {
		if v.isConst() && v.cv.Kind() == constant.Bool {
			if has(st, fmt.Sprintf("is:%s=%v", n, constant.BoolVal(v.cv))) {
				return ""
			}
			continue
		}
		if has(st, "cond:"+n) {
			return ""
		}
	}
	return fmt.Sprintf("does not depend on option %q", strings.Join(need, "/"))
}

func cmpOr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func (c *c37) run(entry *ssa.Function, k *c37Kind, kindKey string, seen map[string]token.Pos, bad map[string]string) {
	p := c.p
	sinks := map[string][]*c37Row{}
	for _, row := range k.rows {
		h, _, _ := strings.Cut(row.sink, ".")
		h, _, _ = strings.Cut(h, "#")
		sinks[h] = append(sinks[h], row)
	}
	sink := func(e *Engine, st *State, row *c37Row, v *Term, pos token.Pos) {
		if v == nil {
			return
		}
		seen[row.sink] = pos
		if why := c.judge(e, st, k, row, v, pos); why != "" {
			if _, dup := bad[row.sink]; !dup {
				bad[row.sink] = why
				c.r.viol("arrives", k.domain+" "+k.kind+": "+row.sink, p.pos(pos),
					fmt.Sprintf("for %s %q the setting %s %s", k.domain, k.kind, row.sink, why), st.path())
			}
		}
	}
	listKeys := map[string]string{"blocklist": "blocklist-format", "blocklist-source.source": "blocklist-source.format", "allowlist": "allowlist-format", "allowlist-source.source": "allowlist-source.format"}
	if k.kind == "blocklist" {
		listKeys = map[string]string{"blocklist": "format", "source": "format"}
	}
	inspect := func(e *Engine, st *State, args []*Term, typs []types.Type, name string, pos token.Pos) {
		for _, row := range sinks[name] {
			if _, n, ok := strings.Cut(row.sink, "#"); ok {
				i := 0
				fmt.Sscan(n, &i)
				if i < len(args) {
					sink(e, st, row, args[i], pos)
				}
			}
		}
		for i := range args {
			for h, rows := range sinks {
				if h == name {
					continue
				}
				for _, v := range c.within(e, st, args[i], typs[i], h, 0) {
					for _, row := range rows {
						path := strings.Split(row.sink, ".")
						if len(path) > 1 {
							sink(e, st, row, c.at(e, st, v, p.root.Pkg.Scope().Lookup(h).Type(), path[1:]), pos)
						}
					}
				}
			}
		}
		if words, ok := c37Formats[name]; ok && len(args) > 1 {
			for lk := range c.keys(e, args[1]) {
				fk := listKeys[lk]
				if fk == "" {
					continue
				}
				good := false
				for _, w := range words {
					good = good || has(st, "is:"+fk+"="+w)
				}
				seen["format "+name] = pos
				if !good && bad["format "+name] == "" {
					bad["format "+name] = "x"
					c.r.viol("format", k.domain+" "+k.kind+": "+name, p.pos(pos),
						fmt.Sprintf("the list in option %q of %s %q is read with %s although option %q does not ask for that", lk, k.domain, k.kind, name, fk), st.path())
				}
			}
		}
	}
	rule := &Rule{
		Keep: func(e *Engine, atom *Term) bool {
			return atom.op != "bin" || atom.args[0].op == "len" || atom.args[1].op == "len" || atom.args[0].isNil() || atom.args[1].isNil()
		},
		FuncReturn: func(e *Engine, st *State, fn *ssa.Function, in *ssa.Return, res []*Term) {
			if fn == entry {
				return
			}
			// which format was asked for matters only while the list is made
			for _, f := range flags(st, "is:") {
				if k, _, _ := strings.Cut(f, "="); strings.HasSuffix(k, "format") {
					unset(st, "is:"+f)
				}
			}
		},
		Inline: func(e *Engine, f *ssa.Function) bool {
			pkg := f.Pkg
			if pkg == nil && f.Parent() != nil {
				pkg = f.Parent().Pkg
			}
			return pkg == p.cmd
		},
		Skip: func(e *Engine, st *State, ev *CallEv) bool {
			return ev.Fn != nil && c.ofOther(ev.Fn, k.domain)
		},
		Branch: func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
			for x := range c.keys(e, atom) {
				set(st, "cond:"+x)
			}
			if x := c.key(atom); x != "" {
				set(st, fmt.Sprintf("is:%s=%v", x, val))
			}
			if atom.op == "bin" && atom.s == "==" {
				for i := 0; i < 2; i++ {
					s, ok := atom.args[i].str()
					x := c.key(atom.args[1-i])
					if !ok || x == "" {
						continue
					}
					if x == kindKey && val != (s == k.kind) {
						st.dead = true
					}
					if val {
						set(st, "is:"+x+"="+s)
					}
				}
			}
		},
		Call: func(e *Engine, st *State, ev *CallEv) []Outcome {
			if ev.Fn == nil || !c.inRootFn(ev.Fn) {
				return nil
			}
			var typs []types.Type
			if r := ev.Fn.Signature.Recv(); r != nil {
				typs = append(typs, r.Type())
			}
			for i := 0; i < ev.Fn.Signature.Params().Len(); i++ {
				typs = append(typs, ev.Fn.Signature.Params().At(i).Type())
			}
			if k.domain == "listener" && strings.HasPrefix(ev.Fn.Name(), "New") && strings.HasSuffix(ev.Fn.Name(), "Listener") {
				any := false // whichever setting it is
				for i, a := range ev.Args {
					v := a
					if i < len(typs) && v.op == "ld" && isStruct(typs[i]) {
						v = e.load(st, v.args[0], typs[i])
					}
					any = any || c.keys(e, v)["ip-version"] || e.T.contains(v, func(x *Term) bool {
						s, ok := x.str()
						return ok && (s == "tcp4" || s == "tcp6" || s == "udp4" || s == "udp6")
					})
				}
				if bad["ip-version"] = p.pos(ev.In.Pos()); any {
					seen["ip-version"] = ev.In.Pos()
				}
			}
			if len(typs) == len(ev.Args) {
				inspect(e, st, ev.Args, typs, ev.Fn.Name(), ev.In.Pos())
			}
			res := e.opaque(st, ev, ev.Args)
			if len(res) > 0 && res[0].typ != nil && !isBool(res[0].typ) && !isErrorT(res[0].typ) {
				if _, isFn := res[0].typ.Underlying().(*types.Signature); !isFn {
					res[0] = c.made(e, res[0])
				}
			}
			return []Outcome{{st, res}}
		},
		After: func(e *Engine, ev *CallEv, outs []Outcome) {
			if ev.C == nil {
				return
			}
			if b, ok := ev.C.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(ev.Args) > 1 {
				sl, ok := ev.C.Args[0].Type().Underlying().(*types.Slice)
				if !ok {
					return
				}
				n, ok := sl.Elem().(*types.Named)
				if !ok || n.Obj().Pkg() != p.root.Pkg || !isStruct(n) {
					return
				}
				for _, o := range outs {
					if len(o.Res) == 1 && o.Res[0].op == "append" {
						for _, v := range o.Res[0].args[2:] {
							inspect(e, o.St, []*Term{v}, []types.Type{n}, "append", ev.In.Pos())
						}
					}
				}
			}
		},
	}
	e := newEngine(p, rule)
	e.budget = 1500000
	e.run(entry, "", func(st *State, params []*Term) {})
	if e.over {
		c.r.viol("budget", k.domain+" "+k.kind, p.pos(entry.Pos()), "the code that builds this kind of element is too large to be followed", nil)
	}
	c.r.engine(e)
}

// ofOther: a function that builds elements of another domain.
func (c *c37) ofOther(fn *ssa.Function, domain string) bool {
	d := c.domainOf(fn)
	return d != "" && d != domain
}

// domainOf is the domain of the element description that a function is given.
func (c *c37) domainOf(fn *ssa.Function) string {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if n, ok := deref(fn.Signature.Params().At(i).Type()).(*types.Named); ok && c.domains[n] != "" {
			return c.domains[n]
		}
	}
	return ""
}

// entries are the functions where the description of an element of the domain first appears.
func (c *c37) entries(domain string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.p.funcs {
		if fn.Pkg != c.p.cmd || fn.Parent() != nil || len(fn.Blocks) == 0 || c.domainOf(fn) != domain {
			continue
		}
		outer := true
		for _, site := range c.p.callersOf(fn) {
			f := site.Parent()
			for f.Parent() != nil {
				f = f.Parent()
			}
			if f != fn && c.domainOf(f) == domain {
				outer = false
			}
		}
		if outer && c.builds(fn) {
			out = append(out, fn)
		}
	}
	if len(out) == 0 {
		for _, fn := range c.p.funcs {
			if fn.Pkg != c.p.cmd || fn.Parent() != nil || c.domainOf(fn) != "" || len(fn.Blocks) == 0 {
				continue
			}
			if c.holds(fn, domain) && c.builds(fn) {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// builds: the function calls constructors of the library, itself or through others.
func (c *c37) builds(fn *ssa.Function) bool {
	found := false
	c.p.staticReach(fn, func(f *ssa.Function) bool {
		if c.inRootFn(f) && strings.HasPrefix(f.Name(), "New") {
			found = true
		}
		return !found && f.Package() == c.p.cmd
	})
	return found
}

// holds: the function handles descriptions of the domain, taken from the configuration.
func (c *c37) holds(fn *ssa.Function, domain string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if n, ok := deref(v.Type()).(*types.Named); ok && c.domains[n] == domain {
				return true
			}
		}
	}
	return false
}

func runC37(p *Prog, r *Report) {
	c := c37New(p, r)
	if c == nil {
		r.viol("arrives", "config", "", "no type is found that the configuration file is decoded into", nil)
		return
	}
	for _, k := range c37Parse() {
		kindKey := map[string]string{"group": "type", "resolver": "protocol", "listener": "protocol"}[k.domain]
		seen, bad := map[string]token.Pos{}, map[string]string{}
		for _, fn := range c.entries(k.domain) {
			r.funcs[p.fnName(fn)] = true
			c.run(fn, k, kindKey, seen, bad)
		}
		for _, row := range k.rows {
			key := k.domain + " " + k.kind + ": " + row.sink
			if _, ok := seen[row.sink]; !ok {
				r.viol("arrives", key, "", fmt.Sprintf("for %s %q the setting %s, which option %q is for, is never given a value", k.domain, k.kind, row.sink, strings.Join(row.keys(), "/")), nil)
			} else if bad[row.sink] == "" {
				r.ok("arrives", key)
			}
		}
		if k.domain == "listener" {
			r.check("arrives", "listener-"+k.kind+"-ip-version", bad["ip-version"], seen["ip-version"] != token.NoPos,
				fmt.Sprintf("option \"ip-version\" of listener %q has no influence on what is listened on", k.kind), nil)
		}
		for s := range seen {
			if strings.HasPrefix(s, "format ") && bad[s] == "" {
				r.ok("format", k.domain+" "+k.kind+": "+s)
			}
		}
	}
	c.read()
	c.used()
	r.atLeast("arrives", 250)
	r.atLeast("read", 120)
	r.atLeast("used", 100)
	r.atLeast("kept", 80)
}

// read: every option that the file accepts is looked at by something.
func (c *c37) read() {
	reads := map[string]bool{}
	note := func(t types.Type, i int) {
		if s, ok := deref(t).Underlying().(*types.Struct); ok {
			reads[fmt.Sprint(c.p.pos(s.Field(i).Pos()))] = true
		}
	}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Field:
					note(x.X.Type(), x.Field)
				case *ssa.FieldAddr:
					if x.Referrers() == nil {
						continue
					}
					for _, u := range *x.Referrers() {
						if s, ok := u.(*ssa.Store); !ok || s.Addr != x {
							note(x.X.Type(), x.Field)
						}
					}
				}
			}
		}
	}
	check := func(s *types.Struct, owner string) {
		for i := 0; i < s.NumFields(); i++ {
			k := c37Tag(s, i)
			if k == "title" {
				continue // a title is only for the reader of the file
			}
			c.r.check("read", owner+"."+k, c.p.pos(s.Field(i).Pos()), reads[fmt.Sprint(c.p.pos(s.Field(i).Pos()))],
				fmt.Sprintf("option %q is accepted in the configuration file but nothing looks at it", k), nil)
		}
	}
	for n := range c.structs {
		check(n.Underlying().(*types.Struct), n.Obj().Name())
	}
	for _, s := range c.anon {
		check(s, "struct")
	}
}

// used: the element built by a constructor looks at every setting that options arrive in.
func (c *c37) used() {
	p := c.p
	settings := map[string]map[string]bool{}
	for _, k := range c37Parse() {
		for _, row := range k.rows {
			parts := strings.Split(row.sink, ".")
			if len(parts) < 2 || parts[0] == "TrustAnchor" {
				continue
			}
			if settings[parts[0]] == nil {
				settings[parts[0]] = map[string]bool{}
			}
			settings[parts[0]][parts[1]] = true
		}
	}
	for _, fn := range p.funcs {
		if !c.inRootFn(fn) || fn.Signature.Recv() != nil || !strings.HasPrefix(fn.Name(), "New") {
			continue
		}
		var opts *types.Named
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if n, ok := fn.Signature.Params().At(i).Type().(*types.Named); ok && settings[n.Obj().Name()] != nil && n.Obj().Pkg() == p.root.Pkg {
				opts = n
			}
		}
		if opts == nil || fn.Signature.Results().Len() == 0 {
			continue
		}
		// everything the element consists of
		fns := map[*ssa.Function]bool{}
		visit := func(f *ssa.Function) bool {
			if !p.inRepo(f) || fns[f] {
				return false
			}
			fns[f] = true
			return true
		}
		p.staticReach(fn, visit)
		elem := fn.Signature.Results().At(0).Type()
		ms := p.ssa.MethodSets.MethodSet(elem)
		for i := 0; i < ms.Len(); i++ {
			if m := p.ssa.MethodValue(ms.At(i)); m != nil {
				p.staticReach(m, visit)
			}
		}
		need := settings[opts.Obj().Name()]
		nested := func(name string, want map[string]bool) {
			got := c.readIn(fns, name)
			for f := range want {
				c.r.check("used", fn.Name()+": "+name+"."+f, p.pos(fn.Pos()), got[f],
					fmt.Sprintf("an element made by %s never looks at its setting %s.%s", fn.Name(), name, f), nil)
			}
		}
		nested(opts.Obj().Name(), need)
		if s, ok := opts.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "ListenOptions" {
					nested("ListenOptions", settings["ListenOptions"])
				}
			}
		}
		c.kept(fn, opts, need)
		// each way of connecting honours the settings of connections
		if need["LocalAddr"] {
			c.transports(fn, opts)
		}
	}
}

// kept: a constructor replaces a setting only when it was left out, or is spelled in another way.
func (c *c37) kept(fn *ssa.Function, opts *types.Named, need map[string]bool) {
	p := c.p
	field := func(v ssa.Value) string {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || !types.Identical(deref(fa.X.Type()), opts) || !need[fieldName(fa.X.Type(), fa.Field)] {
			return ""
		}
		return fieldName(fa.X.Type(), fa.Field)
	}
	given := func(t *Term) bool { // the setting as the caller gave it
		return (t.op == "vf" || t.op == "ld" && t.args[0].op == "fa") && func() bool {
			b := t.args[0]
			for b.op == "fa" || b.op == "vf" {
				b = b.args[0]
			}
			return b.op == "param"
		}()
	}
	bad := map[string]bool{}
	e := newEngine(p, &Rule{
		Inline: func(e *Engine, f *ssa.Function) bool {
			if f.Pkg != p.root {
				return false
			}
			for _, x := range f.Params {
				if types.Identical(deref(x.Type()), opts) {
					return true
				}
			}
			return false
		},
		Branch: func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
			if atom.op == "bin" && atom.s == "==" && val {
				for i := 0; i < 2; i++ {
					if given(atom.args[i]) && atom.args[1-i].isConst() {
						set(st, fmt.Sprintf("eq:%d", atom.args[i].id))
					}
				}
			}
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok || field(s.Addr) == "" {
				return
			}
			name := field(s.Addr)
			typ := deref(s.Addr.Type())
			old := e.load(st, e.ev(st, s.Addr), typ)
			val := e.ev(st, s.Val)
			if !given(old) || e.T.contains(val, func(x *Term) bool { return x == old }) {
				return
			}
			free := has(st, fmt.Sprintf("eq:%d", old.id))
			if v, known := e.isNil(st, old); known && v {
				free = true
			}
			if v, known := e.eval(st, e.T.bin(token.EQL, old, e.zero(typ), types.Typ[types.Bool])); known && v {
				free = true
			}
			if v, known := e.eval(st, e.T.bin(token.EQL, e.T.lenOf(old), e.T.intT(0), types.Typ[types.Bool])); known && v {
				free = true
			}
			if _, hi, _ := e.interval(st, old); hi != nil && *hi <= 0 {
				free = true
			}
			if !free && !bad[name] {
				bad[name] = true
				c.r.viol("kept", fn.Name()+": "+opts.Obj().Name()+"."+name, p.iPos(in),
					fmt.Sprintf("%s replaces the setting %s although one may have been given", fn.Name(), name), st.path())
			}
		},
	})
	e.run(fn, "", func(st *State, params []*Term) {})
	for f := range need {
		if !bad[f] {
			c.r.ok("kept", fn.Name()+": "+opts.Obj().Name()+"."+f)
		}
	}
	c.r.engine(e)
}

// readIn collects the fields of a library struct that are read by the functions.
func (c *c37) readIn(fns map[*ssa.Function]bool, name string) map[string]bool {
	got := map[string]bool{}
	is := func(t types.Type) bool {
		n, ok := deref(t).(*types.Named)
		return ok && n.Obj().Name() == name && n.Obj().Pkg() == c.p.root.Pkg
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Field:
					if is(x.X.Type()) {
						got[fieldName(x.X.Type(), x.Field)] = true
					}
				case *ssa.FieldAddr:
					if is(x.X.Type()) && x.Referrers() != nil {
						for _, u := range *x.Referrers() {
							if s, ok := u.(*ssa.Store); !ok || s.Addr != x {
								got[fieldName(x.X.Type(), x.Field)] = true
							}
						}
					}
				}
			}
		}
	}
	return got
}

func (c *c37) transports(ctor *ssa.Function, opts *types.Named) {
	p := c.p
	s := opts.Underlying().(*types.Struct)
	has := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		has[s.Field(i).Name()] = true
	}
	seen := map[*ssa.Function]bool{}
	for _, b := range ctor.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := call.Common().StaticCallee()
			if f == nil || !p.inRepo(f) || seen[f] {
				continue
			}
			given := false
			for i := 0; i < f.Signature.Params().Len(); i++ {
				given = given || types.Identical(deref(f.Signature.Params().At(i).Type()), opts)
			}
			rt := false
			for i := 0; i < f.Signature.Results().Len(); i++ {
				rt = rt || isNamedT(f.Signature.Results().At(i).Type(), "net/http", "RoundTripper")
			}
			if !given || !rt {
				continue
			}
			seen[f] = true
			fns := map[*ssa.Function]bool{}
			p.staticReach(f, func(g *ssa.Function) bool {
				if !p.inRepo(g) || fns[g] {
					return false
				}
				fns[g] = true
				return true
			})
			got := c.readIn(fns, opts.Obj().Name())
			for _, name := range []string{"TLSConfig", "BootstrapAddr", "LocalAddr", "LocalAddrV4", "LocalAddrV6", "IdleTimeout", "NetNS", "SocketOptions"} {
				if has[name] {
					c.r.check("used", ctor.Name()+"/"+f.Name()+": "+name, p.pos(f.Pos()), got[name],
						fmt.Sprintf("connections made by %s do not depend on the setting %s.%s", f.Name(), opts.Obj().Name(), name), nil)
				}
			}
		}
	}
}
