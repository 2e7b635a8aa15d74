pragma solidity ^0.8.8;

import "contracts/V1/AStateMachine.sol";

struct DemoState {
    uint number;
    address[] participants;
    uint[] balances;
}

/// A small funds-carrying state machine: the next writer is participants[number % n].
contract DemoStateMachine is AStateMachine {
    DemoState state;

    event Added(address who, uint n);

    function add(uint n) public returns (uint) {
        require(_tx.header.participant == getNextToWrite(), "not next");
        state.number += n;
        emit Added(_tx.header.participant, n);
        return state.number;
    }

    function pay(uint to, uint amount) public {
        require(_tx.header.participant == getNextToWrite(), "not next");
        uint me = state.number % state.participants.length;
        state.balances[me] -= amount;
        state.balances[to] += amount;
        state.number += 1;
    }

    /// changes the state, then fails
    function fail() public {
        state.number += 7;
        revert("fail");
    }

    function _setState(bytes memory encodedState) internal virtual override {
        state = abi.decode(encodedState, (DemoState));
    }

    function getState() public view virtual override returns (bytes memory) {
        return abi.encode(state);
    }

    function getParticipants()
        public
        view
        virtual
        override
        returns (address[] memory)
    {
        return state.participants;
    }

    function getNextToWrite() public view virtual override returns (address) {
        if (state.participants.length == 0) return address(0);
        return state.participants[state.number % state.participants.length];
    }

    function _find(address adr) internal view returns (bool, uint) {
        for (uint i = 0; i < state.participants.length; i++)
            if (state.participants[i] == adr) return (true, i);
        return (false, 0);
    }

    function _drop(uint i) internal {
        for (uint j = i; j + 1 < state.participants.length; j++) {
            state.participants[j] = state.participants[j + 1];
            state.balances[j] = state.balances[j + 1];
        }
        state.participants.pop();
        state.balances.pop();
    }

    function _slashParticipant(
        address adr
    ) internal virtual override returns (bool, ProcessExit memory exit) {
        (bool found, uint i) = _find(adr);
        if (!found) return (false, exit);
        uint b = state.balances[i];
        _drop(i);
        exit.participant = adr;
        if (state.balances.length > 0) state.balances[0] += b;
        else exit.amount = b;
        return (true, exit);
    }

    function _removeParticipant(
        address adr
    ) internal virtual override returns (bool, ProcessExit memory exit) {
        (bool found, uint i) = _find(adr);
        if (!found) return (false, exit);
        exit.participant = adr;
        exit.amount = state.balances[i];
        _drop(i);
        return (true, exit);
    }

    function _joinChannel(
        JoinChannel memory jc
    ) internal virtual override returns (bool) {
        (bool found, ) = _find(jc.participant);
        if (found || jc.amount == 13) return false;
        state.participants.push(jc.participant);
        state.balances.push(jc.amount);
        return true;
    }
}
