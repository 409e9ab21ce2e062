//! Contracts outside the protocol, driven entirely by the storage the harness writes:
//! exchanges and their safe prices, liquid staking rates, the swap router, the revenue
//! accumulator and the flash loan receiver.
multiversx_sc::imports!();

#[multiversx_sc::contract]
pub trait Mock {
    #[init]
    fn init(&self) {}

    #[storage_mapper("rate")]
    fn rate(&self) -> SingleValueMapper<BigUint>;
    // (another contract moves a staking rate in the middle of a transaction)
    #[endpoint(setRate)]
    fn set_rate(&self, x: BigUint) {
        self.rate().set(x);
    }
    #[storage_mapper("first")]
    fn first(&self) -> SingleValueMapper<TokenIdentifier>;
    #[storage_mapper("second")]
    fn second(&self) -> SingleValueMapper<TokenIdentifier>;
    #[storage_mapper("first2")]
    fn first2(&self) -> SingleValueMapper<TokenIdentifier>;
    #[storage_mapper("second2")]
    fn second2(&self) -> SingleValueMapper<TokenIdentifier>;
    #[storage_mapper("r0")]
    fn r0(&self) -> SingleValueMapper<BigUint>;
    #[storage_mapper("r1")]
    fn r1(&self) -> SingleValueMapper<BigUint>;
    #[storage_mapper("lp")]
    fn lp(&self) -> SingleValueMapper<BigUint>;
    // per token: what one whole token fetches, in which token, and the pair that must be asked
    #[storage_mapper("sp_out")]
    fn sp_out(&self, t: &TokenIdentifier) -> SingleValueMapper<TokenIdentifier>;
    #[storage_mapper("sp_x")]
    fn sp_x(&self, t: &TokenIdentifier) -> SingleValueMapper<BigUint>;
    #[storage_mapper("sp_one")]
    fn sp_one(&self, t: &TokenIdentifier) -> SingleValueMapper<BigUint>;
    #[storage_mapper("sp_pair")]
    fn sp_pair(&self, t: &TokenIdentifier) -> SingleValueMapper<ManagedAddress>;

    fn quote(&self, offset: u64, good_pair: bool, input: EsdtTokenPayment) -> EsdtTokenPayment {
        let t = input.token_identifier;
        require!(!self.sp_out(&t).is_empty(), "mock: no safe price");
        let mut x = self.sp_x(&t).get() * input.amount / self.sp_one(&t).get();
        if offset != 900 {
            x *= 3u32;
        }
        if !good_pair {
            x *= 7u32;
        }
        EsdtTokenPayment::new(self.sp_out(&t).get(), 0, x)
    }

    #[view(getSafePriceByTimestampOffset)]
    fn safe_price(&self, args: MultiValueEncoded<ManagedBuffer>) -> EsdtTokenPayment {
        let v = args.to_vec();
        if v.len() == 3 {
            let pair = ManagedAddress::top_decode(v.get(0).clone()).unwrap_or_default();
            let offset = u64::top_decode(v.get(1).clone()).unwrap_or_default();
            let input = EsdtTokenPayment::top_decode(v.get(2).clone()).unwrap();
            let good = self.sp_pair(&input.token_identifier).get() == pair;
            self.quote(offset, good, input)
        } else {
            let to = TokenIdentifier::from(v.get(1).clone());
            let offset = u64::top_decode(v.get(2).clone()).unwrap_or_default();
            let input = EsdtTokenPayment::top_decode(v.get(3).clone()).unwrap();
            let good = self.sp_out(&input.token_identifier).get() == to
                && *v.get(0) == *input.token_identifier.as_managed_buffer();
            self.quote(offset, good, input)
        }
    }

    #[view(getExchangeRate)]
    fn exchange_rate(&self) -> BigUint {
        self.rate().get()
    }
    #[view(getTokenPrice)]
    fn token_price(&self) -> BigUint {
        self.rate().get()
    }
    #[view(getMainToken)]
    fn main_token(&self) -> TokenIdentifier {
        self.first().get()
    }
    #[view(getFirstTokenId)]
    fn first_token(&self) -> TokenIdentifier {
        self.first().get()
    }
    #[view(getSecondTokenId)]
    fn second_token(&self) -> TokenIdentifier {
        self.second().get()
    }
    #[view(getPairFirstTokenId)]
    fn pair_first_token(&self, id: usize) -> TokenIdentifier {
        if id == 2 { self.first2().get() } else { self.first().get() }
    }
    #[view(getPairSecondTokenId)]
    fn pair_second_token(&self, id: usize) -> TokenIdentifier {
        if id == 2 { self.second2().get() } else { self.second().get() }
    }
    #[view(getReservesAndTotalSupply)]
    fn reserves(&self) -> MultiValue3<BigUint, BigUint, BigUint> {
        (self.r0().get(), self.r1().get(), self.lp().get()).into()
    }

    // revenue accumulator
    #[payable]
    #[endpoint(deposit)]
    fn deposit(&self) {}

    // swap router: hands back whatever it is asked for, if told so after calling back into the controller
    #[storage_mapper("re_target")]
    fn re_target(&self) -> SingleValueMapper<ManagedAddress>;
    #[storage_mapper("re_func")]
    fn re_func(&self) -> SingleValueMapper<ManagedBuffer>;
    #[storage_mapper("re_pays")]
    fn re_pays(&self) -> SingleValueMapper<ManagedVec<EgldOrEsdtTokenPayment>>;
    #[storage_mapper("re_args")]
    fn re_args(&self) -> SingleValueMapper<ManagedVec<ManagedBuffer>>;
    #[payable]
    #[endpoint(xo)]
    fn xo(&self, outs: MultiValueEncoded<EgldOrEsdtTokenPayment>) {
        if !self.re_func().is_empty() {
            let func = self.re_func().take();
            let mut args = ManagedArgBuffer::<Self::Api>::new();
            for a in self.re_args().get().iter() {
                args.push_arg_raw(a.clone());
            }
            let pays = self.re_pays().get();
            if pays.is_empty() {
                self.tx().to(self.re_target().get()).raw_call(func).arguments_raw(args).sync_call();
            } else {
                self.tx().to(self.re_target().get()).raw_call(func).arguments_raw(args).payment(pays).sync_call();
            }
        }
        self.send_back(&self.blockchain().get_caller(), outs.to_vec());
    }

    fn send_back(&self, to: &ManagedAddress, outs: ManagedVec<EgldOrEsdtTokenPayment>) {
        let mut l = ManagedVec::<Self::Api, EgldOrEsdtTokenPayment>::new();
        for q in outs.iter() {
            if q.amount > 0u32 {
                l.push(q.clone());
            }
        }
        self.tx().to(to).payment(l).transfer_if_not_empty();
    }

    // flash loan receiver.  Arguments: amount to give back, then per behaviour, then the caller
    // appended by the controller.
    fn give(&self, amount: BigUint) {
        let t = self.call_value().egld_or_single_esdt().token_identifier.clone();
        if amount > 0u32 {
            self.tx()
                .to(self.blockchain().get_caller())
                .payment(EgldOrEsdtTokenPayment::new(t, 0, amount))
                .transfer();
        }
    }
    #[payable]
    #[endpoint(pay)]
    fn pay(&self, amount: BigUint, _caller: ManagedAddress) {
        self.give(amount);
    }
    #[payable]
    #[endpoint(none)]
    fn none(&self, _amount: BigUint, _caller: ManagedAddress) {}
    #[payable]
    #[endpoint(wrong)]
    fn wrong(&self, amount: BigUint, other: EgldOrEsdtTokenIdentifier, _caller: ManagedAddress) {
        self.tx()
            .to(self.blockchain().get_caller())
            .payment(EgldOrEsdtTokenPayment::new(other, 0, amount))
            .transfer();
    }
    #[payable]
    #[endpoint(two)]
    fn two(&self, amount: BigUint, _caller: ManagedAddress) {
        let t = self.call_value().egld_or_single_esdt().token_identifier.clone();
        let half = &amount / 2u32;
        let mut l = ManagedVec::<Self::Api, EgldOrEsdtTokenPayment>::new();
        l.push(EgldOrEsdtTokenPayment::new(t.clone(), 0, amount - &half));
        if half > 0u32 {
            l.push(EgldOrEsdtTokenPayment::new(t, 0, half));
        }
        self.send_back(&self.blockchain().get_caller(), l);
    }
    // calls an endpoint of `target` with the given payments and arguments, then repays
    #[payable]
    #[endpoint(reenter)]
    fn reenter(
        &self,
        amount: BigUint,
        target: ManagedAddress,
        func: ManagedBuffer,
        pays: ManagedVec<EgldOrEsdtTokenPayment>,
        args: MultiValueEncoded<ManagedBuffer>,
    ) {
        let all = args.to_vec();
        let mut inner = ManagedArgBuffer::<Self::Api>::new();
        for i in 0..all.len() - 1 {
            inner.push_arg_raw(all.get(i).clone());
        }
        if pays.is_empty() {
            self.tx()
                .to(&target)
                .raw_call(func)
                .arguments_raw(inner)
                .sync_call();
        } else {
            self.tx()
                .to(&target)
                .raw_call(func)
                .arguments_raw(inner)
                .payment(pays)
                .sync_call();
        }
        self.give(amount);
    }
}
